"""C20: identifier and keyword types, decided with the Words specification."""
import random, re, unicodedata
from core import *

POOL = ["a", "A", "ab", "abc", "b", "_a", "__", "fn", "r#fn", "r#type", "type", "self", "Self", "super", "crate", "true", "false", "let", "async", "dyn", "try", "union", "gen",
        "\u00e9", "\u00e9t\u0151", "\u0416", "x1", "x_1", "X1", "r#a", "static", "as", "where", "while", "r#match", "match", "macro_rules", "auto", "default", "yield"]
LONG = ["k" * 31, "k" * 32, "k" * 33, "fn" * 40, "fn" * 40 + "x", "a" * 255, "a" * 256, "a" * 257, "\u00e9" * 40, "fn_", "Fn", "FN", "r_fn", "afn", "self_", "_self", "a\u0301", "\u00df\u00e9", "\u00e9\u0301", "\u0416\u0416"]
MANY = [f"w{i}{'xyzXYZ_'[i % 7]}" for i in range(60)]
ONLYWORDS = MANY[:4] + ["w0", "w0xx", "W0x", "w60x"] + LONG + ["e\u0301", "_", "r#ab", "r#x1", "B", "aB", "r", "r#r", "b_", "br"]
KWS = """break const continue else enum extern for if impl in loop mod move mut pub ref return struct trait unsafe use await abstract become box do final macro override priv typeof unsized virtual raw safe gen
_0 _1 _00 _9a __0 ___ _r r_ c d br_ null None Some bool u8 str String Box Vec i32 end eof empty ident word raw_ rust crate_ super_ r#if r#else r#in r#async r#await r#dyn r#try r#gen r#_0 r#__ r#true r#false r#null""".split()
ONLYWORDS += KWS
OTHER = ["1", '"a"', "+", "(a)", "'a'", "-", "{}", "::", "[fn]", "1.5", "'x", "#"]      # ('x: a lifetime)
FIXED = [[], ["a"], ["a", "A", "ab", "_"], ["fn", "r#fn", "r#type", "_"], ["self", "Self", "super", "crate", "true", "false", "_"], ["\u00e9", "\u0416", "r#a", "_a", "x1"], ["type", "match", "b", "r#match"]]

def lists(rng):
    out = [list(x) for x in FIXED]
    for _ in range(5):
        x = rng.sample(POOL, rng.choice([2, 5, 9, 25]))
        if rng.random() < .5: x.append("_")
        out.append(x)
    # the compiler normalises the words of a declaration to NFC (a run-time text is not normalised), so the lists only hold such words
    out.append(["fn"] + rng.sample([w for w in LONG if unicodedata.normalize("NFC", w) == w], 6)); out.append(list(MANY))
    out.append(list(STEMS)); out.append(["".join(rng.choice("abcdefxyz_") for _ in range(n)).replace("__", "b_") + "k" for n in (5, 7, 8, 11, 15, 16, 24, 33)])
    return out

STEMS = ["otherwise", "keyword_", "eightchr", "identification", "sixteen_letters_", "seventeen_letters", "internationalization", "thirty_two_letters_are_many_here", "exactly_sixty_four_letters_are_needed_for_this_very_long_word_xyz"]
def variants(w, rng):
    """words which differ from w a little: in one place (wherever it is), in length, in case, in the order of two letters"""
    raw, s = ("r#", w[2:]) if w.startswith("r#") else ("", w)
    n, out = len(s), []
    if n > 1:
        places = {0, n - 1, n // 2, rng.randrange(n), rng.randrange(n)} | {p for p in (3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64) if p < n and n <= 70}
        for i in sorted(places): out.append(s[:i] + ("q" if s[i] != "q" else "z") + s[i + 1:])
        i = rng.randrange(n); out.append(s[:i] + s[i].swapcase() + s[i + 1:])
        i = rng.randrange(n - 1); out.append(s[:i] + s[i + 1] + s[i] + s[i + 2:])
        out += [s[1:], s[:-1], s[:n // 2]]
    out += [s + "s", s + "_", "_" + s, s + s if n < 40 else s + "0", s.upper(), s.capitalize()]
    good = re.compile(r"(?!_$)[A-Za-z_\u00e9\u0151\u0416\u00df\u0301][\w\u0301]*").fullmatch
    out = [raw + x for x in out if good(x) and x.isascii() | all(c in s for c in x if not c.isascii()) and x[0] != "\u0301"]
    if raw == "" and s not in ("_", "self", "Self", "super", "crate"): out.append("r#" + s)
    if raw: out.append(s)
    return [x for x in dict.fromkeys(out) if x not in ("r#self", "r#Self", "r#super", "r#crate", "r#_", "_")]

HEAD = r'''
#![allow(dead_code, unused_imports, non_camel_case_types, uncommon_codepoints, mixed_script_confusables, confusable_idents)]
use harness::*;
use std::fmt::Write as _;
use parsel::ast::*;
use parsel::{Parse, ToTokens, FromStr, Display, Spanned, TokenTree, TokenStream, Span};

trait One: Parse + ToTokens + std::fmt::Display + std::str::FromStr<Err = parsel::Error> + Clone + PartialEq {
    /// every way to get at the word: (way, text, location)
    fn ways(&self, o: &mut Vec<(String, String, Option<Span>)>);
    fn convert(_: Ident) -> Option<Result<Self, parsel::Error>> { None }
    fn move_to(&mut self, s: Span);
    fn equals(&self, w: &str) -> bool;
}
fn word_of(ts: TokenStream) -> (String, Option<Span>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    match &v[..] { [TokenTree::Ident(i)] => (i.to_string(), Some(i.span())), _ => (format!("<{:?}>", v.len()), None) }
}
impl<K: Default + KeywordList + Clone + PartialEq> One for CustomIdent<K> {
    fn ways(&self, o: &mut Vec<(String, String, Option<Span>)>) {
        let (t, s) = word_of(self.to_token_stream()); o.push(("to_tokens".into(), t, s));
        o.push(("token".into(), self.token().to_string(), Some(self.token().span())));
        o.push(("span".into(), self.to_string(), Some(self.span())));
        o.push(("Spanned".into(), self.to_string(), Some(Spanned::span(self))));
        let i: Ident = self.clone().into(); o.push(("into".into(), i.to_string(), Some(i.span())));
        o.push(("display#".into(), format!("{:#}", self), None));
    }
    fn convert(i: Ident) -> Option<Result<Self, parsel::Error>> { Some(CustomIdent::try_from(i)) }
    fn move_to(&mut self, s: Span) { self.set_span(s) }
    fn equals(&self, w: &str) -> bool { *self == w && self.token() == w }
}
macro_rules! kw { ($($t:ty),*) => {$(
    impl One for $t {
        fn ways(&self, o: &mut Vec<(String, String, Option<Span>)>) {
            let (t, s) = word_of(self.to_token_stream()); o.push(("to_tokens".into(), t, s));
            o.push(("token".into(), self.token().to_string(), Some(self.token().span())));
            o.push(("as_str".into(), self.as_str().to_string(), Some(self.span())));
            o.push(("as_ref".into(), AsRef::<str>::as_ref(self).to_string(), Some(Spanned::span(self))));
            let (t, s) = word_of(TokenTree::from(*self).into()); o.push(("TokenTree".into(), t, s));
            o.push(("display#".into(), format!("{:#}", self), None));
            o.push(("debug".into(), format!("{:?}", self), None));
            let d = <$t>::default(); o.push(("default".into(), d.to_string(), None));
            let d = <$t>::new(self.span()); o.push(("new".into(), d.token().to_string(), Some(d.token().span())));
        }
        fn move_to(&mut self, s: Span) { self.set_span(s) }
        fn equals(&self, w: &str) -> bool { *self == w }
    }
)*}}
fn at(e: &parsel::Error) -> String { format!("[{}]", span4(e.span())) }
fn run1<T: One>(text: &str, words: &[&str]) -> String {
    let mut o = String::from("{\"r\":\"ok\"");
    let routes: Vec<(&str, Result<T, parsel::Error>)> = vec![
        ("parse_str", parsel::parse_str(text)), ("FromStr", text.parse()),
        ("parse2", text.parse::<TokenStream>().map_err(Into::into).and_then(parsel::parse2))];
    o.push_str(",\"single\":[");
    for (i, (n, r)) in routes.iter().enumerate() {
        if i > 0 { o.push(',') }
        match r {
            Err(e) => { let _ = write!(o, "{{\"by\":{},\"ok\":false,\"at\":{}}}", jstr(n), at(e)); }
            Ok(t) => {
                let mut w = vec![]; t.ways(&mut w);
                let _ = write!(o, "{{\"by\":{},\"ok\":true,\"shown\":{},\"ways\":[{}]", jstr(n), jstr(&t.to_string()),
                    w.iter().map(|(n, t, s)| format!("[{},{},[{}]]", jstr(n), jstr(t), s.map_or(String::new(), span4))).collect::<Vec<_>>().join(","));
                let _ = write!(o, ",\"eq\":[{}]", words.iter().map(|w| t.equals(w).to_string()).collect::<Vec<_>>().join(","));
                // a word moved somewhere else is the same word there
                let far: Ident = parsel::parse_str("\n\n\n      away").unwrap();
                let mut u = t.clone(); u.move_to(far.span());
                let mut w = vec![]; u.ways(&mut w);
                let there = w.iter().all(|(_, _, s)| s.map_or(true, |s| span4(s) == span4(far.span())));
                let _ = write!(o, ",\"moved\":{}}}", there && u == *t && u.to_string() == t.to_string());
            }
        }
    }
    o.push_str("],\"many\":");
    match parsel::parse_str::<Any<T>>(text) {
        Err(e) => { let _ = write!(o, "{{\"ok\":false,\"at\":{}}}", at(&e)); }
        Ok(v) => { let _ = write!(o, "{{\"ok\":true,\"n\":{}}}", v.len()); }
    }
    // conversion of words read as plain identifiers
    o.push_str(",\"conv\":[");
    let mut first = true;
    for w in words {
        if let Ok(i) = parsel::syn::parse::Parser::parse_str(<Ident as parsel::syn::ext::IdentExt>::parse_any, w) {
            let (s, sp) = (i.to_string(), i.span());
            if let Some(r) = T::convert(i) {
                if !first { o.push(',') } first = false;
                match r {
                    Ok(t) => { let mut v = vec![]; t.ways(&mut v); let _ = write!(o, "[{},true,{}]", jstr(w), v.iter().all(|(_, t, p)| *t == s && p.map_or(true, |p| span4(p) == span4(sp)))); }
                    Err(e) => { let _ = write!(o, "[{},false,{}]", jstr(w), span4(e.span()) == span4(sp)); }
                }
            }
        }
    }
    o.push_str("]}");
    o
}
/// words which are made, not read
fn made(words: &[&str]) -> String {
    let far: Ident = parsel::parse_str("\n\n\n      away").unwrap();
    let mut o = vec![];
    for w in words {
        let read: Word = parsel::parse_str(w).unwrap();
        let (i, a, b) = (ident(w), word(w), Word::new(w, far.span()));
        let good = [i.to_string(), a.to_string(), b.to_string(), a.token().to_string(), b.token().to_string()].iter().all(|s| s == w)
            && a == read && b == read && a == b && a == *w && b == *w && i == *w && a.token() == i
            && span4(a.span()) == span4(i.span()) && span4(a.span()) == span4(Span::call_site()) && span4(b.span()) == span4(far.span());
        if !good { o.push(jstr(w)) }
    }
    format!("{{\"r\":\"ok\",\"odd\":[{}]}}", o.join(","))
}
fn runall<E: Parse + ToTokens>(text: &str, class: fn(&E) -> i32) -> String {
    match parsel::parse_str::<Any<E>>(text) {
        Err(e) => format!("{{\"r\":\"ok\",\"ok\":false,\"at\":{}}}", at(&e)),
        Ok(v) => { let mut p = String::new(); tokens(v.to_token_stream(), &mut p);
                   format!("{{\"r\":\"ok\",\"ok\":true,\"cls\":[{}],\"p\":{}}}", v.iter().map(|x| class(x).to_string()).collect::<Vec<_>>().join(","), p) }
    }
}
'''

# names that mean something elsewhere
NAMES = ["Ok", "Err", "Some", "None", "Result", "Option", "String", "Box", "Vec", "str", "Default", "Clone", "Copy", "Hash", "Hasher", "Ord", "Ordering", "Equal", "Debug", "Display", "Formatter", "Ident", "Span", "Error", "Parse",
         "ToTokens", "From", "Into", "AsRef", "FromStr", "TokenStream", "TokenTree", "PartialEq", "Eq", "Self_", "bool", "u8", "core", "std", "parsel", "syn", "KeywordList", "CustomIdent", "Iterator", "Drop", "Fn", "T", "H", "r#fn", "r#type",
         "\u00c9", "string", "input", "formatter", "state", "ident", "span", "kw", "other", "KEYWORDS", "Keyword", "x"]
def kname(n, i): return NAMES[(i * 7 + n * 13) % len(NAMES)] if n % 2 and i <= len(NAMES) // 2 else f"K{i}"
VIS = ["pub ", "pub(crate) ", "", "pub(self) ", "pub(in crate) "]

def source(ls, odd=True):
    kname = globals()["kname"] if odd else lambda n, i: f"K{i}"
    s, arms, kinds = [HEAD], [], []
    for n, ws in enumerate(ls, 1):
        s.append(f"parsel::define_keywords!{{ {VIS[n % len(VIS)]}mod l{n} {{ " + " ".join(f"{w} => {kname(n, i)};" for i, w in enumerate(ws, 1)) + " } }")
        if ws: s.append("kw!{" + ",".join(f"l{n}::{kname(n, i)}" for i in range(1, len(ws) + 1)) + "}")
        s.append(f"#[derive(Parse, ToTokens)] enum E{n} {{ " + ",".join([f"V{i}(l{n}::{kname(n, i)})" for i in range(1, len(ws) + 1)] + [f"V0(CustomIdent<l{n}::Keywords>)"]) + " }")
        arms.append(f'("A", "{n}", _) => runall::<E{n}>(&t, |e| match e {{ ' + ", ".join(f"E{n}::V{i}(_) => {i}" for i in range(len(ws) + 1)) + " }),")
        for i in range(len(ws) + 1):
            ty = f"CustomIdent<l{n}::Keywords>" if i == 0 else f"l{n}::{kname(n, i)}"
            arms.append(f'("T", "{n}", "{i}") => run1::<{ty}>(&t, &words),')
        arms.append(f'("L", "{n}", _) => format!("{{{{\\"r\\":\\"ok\\",\\"list\\":[{{}}]}}}}", l{n}::Keywords::KEYWORDS.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")),')
    # the identifier type without keywords
    arms.append('("N", _, _) => made(&words),')
    arms.append('("T", "0", _) => run1::<Word>(&t, &words),')
    s.append("fn dispatch(f: &[&str]) -> String {\n let t = unhex(f[3]); let ws = unhex(f[4]); let words: Vec<&str> = ws.split(' ').filter(|s| !s.is_empty()).collect();\n match (f[0], f[1], f[2]) {\n"
             + "\n".join(arms) + "\n _ => String::new() }\n}\nfn main() { serve(dispatch) }\n")
    return "\n".join(s)

def place(w, rng):
    """a text for the tokens; where each of them is [line, column of start, line, column of end]"""
    t, pos, line, col = "", [], 1, 0
    def put(s):
        nonlocal t, line, col
        for ch in s:
            t += ch
            if ch == "\n": line += 1; col = 0
            else: col += 1
    put(rng.choice(["", " ", "\n", "/*\u00e9*/"]))
    for x in w:
        a = [line, col]; put(x); pos.append(a + [line, col]); put(rng.choice([" ", "\n", "  ", " // c\n"]))
    return t, pos

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 20)
    ls = lists(rng)
    try: exe = build("chkwords", {"main.rs": source(ls)})
    except ToolError as e:
        # is it only what the types are called?
        exe = build("chkwords", {"main.rs": source(ls, False)})
        rep.violation("a keyword list compiles only if its types are called otherwise", names=NAMES, error=str(e)[:3000])
    every = sorted(set(POOL) | set(ONLYWORDS))
    # what the specification calls the empty list is also what the ready-made type has
    fams = []
    toks = {**{x: "word" for x in every + MANY}, **{x: "other" for x in OTHER}}
    for n, ws in enumerate(ls, 1):
        # words that nearly are one of the list
        odd = list(dict.fromkeys(v for w in (ws if len(ws) <= 10 else rng.sample(ws, 10)) for v in variants(w, rng)))
        if len(odd) * (len(ws) + 1) > 1500: odd = rng.sample(odd, 1500 // (len(ws) + 1))
        toks.update({x: "word" for x in odd + ws})
        if odd: fams.append(dict(lists=[n], alpha=odd, max=1))
        near = list(dict.fromkeys(ws[:4] + rng.sample(every, 4) + ["a", "_"] + rng.sample(OTHER, 3)))
        fams.append(dict(lists=[n], alpha=list(dict.fromkeys(every + ws + OTHER)), max=1))
        fams.append(dict(lists=[n], alpha=near, max=(3 if thorough() else 2) if len(ws) <= 5 else 2))
    outs, st = tlc("MCWords", dict(WORDS_JSON=jsonfile(dict(toks=toks, lists=ls, fams=fams), "C20-mc.json"))); rep.states(st)
    # lists and words in the specification are compared by spelling alone
    log(f"C20: TLC enumerated {len(outs)} behaviours, {st['distinct']} states")
    lines, meta = [], []
    # once in the order of the specification; then again, every word with all types one after the other, so that what one
    # type has made of a word can be met by the next
    again = [o for o in outs if len(o["w"]) == 1]; rng.shuffle(again); again.sort(key=lambda o: o["w"]); again = again[:30000]
    for k, o in enumerate(outs + again):
        t, pos = place(o["w"], rng)
        ws = [x for x in o["w"] if toks[x] == "word"]
        ws = rng.sample(every, 2) + ws if rng.random() < .5 else ws + rng.sample(every, 2)
        if k >= len(outs) and rng.random() < .8: t, pos = place(o["w"], random.Random(1)); ws = ws[-1:]
        n = 0 if ls[o["l"] - 1] == [] and rng.random() < .5 else o["l"]
        lines.append("\t".join(["T", str(n), str(o["ty"]), t.encode().hex(), " ".join(ws).encode().hex()])); meta.append((o, t, pos, ws))
    ans = Run(exe).all(lines)
    for (o, t, pos, ws), a in zip(meta, ans):
        why = judge(o, pos, ws, ls, toks, a)
        if why: rep.violation(why, list=ls[o["l"] - 1], type=o["ty"], text=t, got=a)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["behaviours_replayed"] = len(outs); rep.cov["behaviours_replayed_in_another_order"] = len(again); rep.cov["keyword_lists"] = len(ls)
    for o, t, _, _ in rng.sample(meta, 2): rep.sample(dict(direction="spec->code", list=ls[o["l"] - 1], type=o["ty"], text=t))
    for n, a in enumerate(Run(exe).all([f"L\t{n}\t0\t\t" for n in range(1, len(ls) + 1)])):
        if a["r"] != "ok" or sorted(a["list"]) != sorted(ls[n]): rep.violation("the keyword list is not what was declared", list=ls[n], got=a)
    plain = [w for w in every if not w.startswith("r#")]
    for w, a in zip(plain, Run(exe).all([f"N\t0\t0\t\t{w.encode().hex()}" for w in plain])):
        if a["r"] != "ok" or a["odd"]: rep.violation(f"a word which is made is not the word which is read: {a}", word=w)
    # recordings: every word classified
    recs, srcs, lines = [], [], []
    for _ in range(600 if thorough() else 200):
        n = rng.randrange(1, len(ls) + 1); src = ls[n - 1] + rng.sample(every, 8)
        w = [rng.choice(src) for _ in range(rng.choice([1, 4, 12, 40]))]
        if rng.random() < .5: w.insert(rng.randrange(len(w) + 1), rng.choice(OTHER))
        t, pos = place(w, rng)
        recs.append(dict(l=n, w=w)); srcs.append((t, pos)); lines.append(f"A\t{n}\t0\t{t.encode().hex()}\t")
    ans = Run(exe).all(lines)
    good, idx = [], []
    for k, (r, (t, pos), a) in enumerate(zip(recs, srcs, ans)):
        if a["r"] != "ok": rep.violation(f"no answer: {a}", text=t); continue
        if a["ok"]:
            if [x[0] for x in a["p"]] != r["w"] or [x[1:] for x in a["p"]] != pos[:len(a["p"])]: rep.violation("printed words differ in spelling or location", text=t, got=a["p"])
            r.update(ok=True, at=0, cls=a["cls"])
        else:
            r.update(ok=False, at=next((i + 1 for i, p in enumerate(pos) if p[:2] == a["at"][:2]), 0), cls=[])
        good.append(r); idx.append(k)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    outs, st = tlc("WordsTrace", dict(WORDS_JSON=jsonfile(dict(toks=toks, lists=ls, fams=[], recs=good), "C20-tr.json"))); rep.states(st)
    if len(outs) != len(good): raise ToolError("TLC did not judge all recordings")
    for o in outs:
        if not o["ok"]: rep.violation("recorded classification rejected", list=ls[good[o["rec"] - 1]["l"] - 1], text=srcs[idx[o["rec"] - 1]][0], expected=o, got=ans[idx[o["rec"] - 1]])
    rep.traces(len(good)); rep.cov["recordings_validated"] = len(good)
    rep.sample(dict(direction="code->spec", list=ls[recs[0]["l"] - 1], text=srcs[0][0][:120]))
    return rep

def judge(o, pos, ws, ls, toks, a):
    if a["r"] != "ok": return f"no answer: {a}"
    kind = "identifier" if o["ty"] == 0 else "keyword"
    def where(i): return pos[i - 1][:2]
    for s in a["single"]:
        if s["ok"] != o["single"]["ok"]: return f"{kind} type wrongly " + ("accepts" if s["ok"] else "rejects") + f" the text ({s['by']})"
        if not s["ok"]:
            k = o["single"]["at"]
            if k > 0 and s["at"][:2] != where(k): return f"the rejection does not point at the token ({s['by']})"
            if k > 0 and toks[o["w"][k - 1]] == "word" and s["at"] != pos[k - 1]: return f"the rejection does not point at the word ({s['by']})"
        else:
            w = o["w"][0]
            if s["shown"] != w: return f"the word is shown as {s['shown']}"
            for name, t, at in s["ways"]:
                if t != w: return f"{name} gives {t}"
                if at and at != pos[0]: return f"{name} gives another location"
            for x, e in zip(ws, s["eq"]):
                if e != (x == w): return f"comparison with {x} is wrong"
            if not s["moved"]: return "moving the word changes more than its location"
    m = a["many"]
    if m["ok"] != (o["many"]["at"] == -1): return "a run of words is wrongly " + ("accepted" if m["ok"] else "rejected")
    if m["ok"] and m["n"] != o["many"]["n"]: return "a run of words has the wrong length"
    if not m["ok"] and m["at"][:2] != where(o["many"]["at"]): return "the error in a run of words points elsewhere"
    if o["ty"] == 0:
        for w, ok, same in a["conv"]:
            if ok != (w not in ls[o["l"] - 1]): return f"conversion of {w} wrongly " + ("succeeds" if ok else "fails")
            if not same: return f"conversion of {w} changes the word or points elsewhere"
    return None
