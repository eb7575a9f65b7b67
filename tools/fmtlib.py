"""C14, C15, C16: the formatter, decided with the Fmt specification."""
import random, re
from core import *
from gram import tokinfo, toktext, render, SPACES
from peg import Run

PRETTY = dict(p=True, s="    "); COMPACT = dict(p=False, s="")
def unit(s): return dict(p=True, s=s)

def toktable(names):
    t = {}
    for n in set(names) | set("()[]{}") | {"a", "!)"}:
        d = tokinfo(n); d["x"] = toktext(n); t[n] = d
    return t

def chartable(chars):
    out = {}
    for ch in chars:
        if ch in "([{": c = "open"
        elif ch in ")]}": c = "close"
        elif ch == '"': c = "dq"
        elif ch == "'": c = "sq"
        elif ch == "\\": c = "bs"
        elif ch.isdigit(): c = "dig"
        elif ch == "_" or ch.isalpha(): c = "id"
        elif ch.isspace(): c = "ws"
        else: c = "op"
        out[ch] = c
    return out

BASE = [chr(c) for c in range(32, 127)] + ["\t", "\n", "\r", "\x0b", "\x0c", "\u00a0", "\u3000", "\u2028", "\u00e9", "\u0151", "\u2003", "\u0085", "\u200b"]

MAIN = r'''
#![allow(dead_code, unused_imports)]
use harness::*;
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;
use parsel::TokenStream;
use parsel::util::*;
use parsel::quote::ToTokens;

#[derive(Default)]
struct State { pieces: Vec<String>, refused: Option<String>, after: usize, left: i64, calls: i64, text: String, percall: bool }
#[derive(Clone)]
struct W(Rc<RefCell<State>>);
impl W {
    fn new(left: i64, percall: bool) -> W { let mut s = State::default(); s.left = left; s.percall = percall; W(Rc::new(RefCell::new(s))) }
}
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut st = self.0.borrow_mut();
        if st.refused.is_some() { st.after += 1; return Err(std::fmt::Error); }
        if s.is_empty() { return Ok(()) }
        if st.left < 0 { st.text.push_str(s); st.pieces.push(s.to_string()); return Ok(()) }
        if st.percall {
            if st.left > 0 { st.left -= 1; st.text.push_str(s); st.pieces.push(s.to_string()); return Ok(()) }
            st.refused = Some(s.to_string());
            return Err(std::fmt::Error);
        }
        let n = s.chars().count() as i64;
        if n <= st.left { st.left -= n; st.text.push_str(s); st.pieces.push(s.to_string()); Ok(()) }
        else {
            let take: String = s.chars().take(st.left as usize).collect();
            st.text.push_str(&take);
            if !take.is_empty() { st.pieces.push(take); }
            st.refused = Some(s.to_string());
            Err(std::fmt::Error)
        }
    }
}
struct Toks(TokenStream);
impl std::fmt::Display for Toks {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { format_tokens(self.0.clone(), f) }
}
struct Ast(TokenStream);
impl std::fmt::Display for Ast {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { format_ast_node(&self.0, f) }
}
fn go<S: AsRef<str>>(mut fm: TokenStreamFormatter<S, W>, w: &W, ts: TokenStream, ts2: TokenStream, node: bool) -> (bool, String, String, Vec<String>, bool, usize) {
    let r = if node { fm.write_ast_node(&ts) } else { fm.write(ts) };
    let (txt, ev, refused, after);
    {
        let mut s = w.0.borrow_mut();
        txt = std::mem::take(&mut s.text); ev = std::mem::take(&mut s.pieces);
        refused = s.refused.take().is_some(); after = s.after; s.left = -1;
    }
    let r2 = if node { fm.write_ast_node(&ts2) } else { fm.write(ts2) };
    let mut txt2 = std::mem::take(&mut w.0.borrow_mut().text);
    if r2.is_err() { txt2.push_str("<error>"); }
    (r.is_err(), txt, txt2, ev, refused, after)
}
/// groups without delimiters cannot be written; `__none ( ... )` stands for one
fn read(s: &str) -> TokenStream { veil(s.parse().unwrap()) }
fn veil(ts: TokenStream) -> TokenStream {
    use parsel::proc_macro2::{Delimiter, Group, TokenTree};
    let mut out = vec![]; let mut hide = false;
    for t in ts {
        match t {
            TokenTree::Ident(i) if i == "__none" => hide = true,
            TokenTree::Group(g) => {
                let d = if hide { Delimiter::None } else { g.delimiter() }; hide = false;
                let mut n = Group::new(d, veil(g.stream())); n.set_span(g.span()); out.push(TokenTree::Group(n));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}
fn flat(t: &str) -> String {
    match t.parse::<TokenStream>() { Ok(ts) => { let mut o = String::new(); tokens(ts, &mut o); o } Err(e) => format!("\"{}\"", e.to_string().replace('"', "'")) }
}
/// fields: mode (P pretty, C compact, U unit), unit, capacity, kind (c characters, k calls), stream, second stream, flags
fn dispatch(f: &[&str]) -> String {
    if f[0] == "I" {
        let u = unhex(f[1]);
        let ok = TokenStreamFormatter::with_indent(u.as_str(), String::new()).is_ok();
        let ok2 = TokenStreamFormatter::with_indent(u.clone(), String::new()).is_ok();
        return format!("{{\"r\":\"ok\",\"ok\":{},\"ok2\":{}}}", ok, ok2);
    }
    let (u, t1, t2) = (unhex(f[1]), unhex(f[4]), unhex(f[5]));
    let cap: i64 = f[2].parse().unwrap();
    let (a, b): (TokenStream, TokenStream) = (read(&t1), read(&t2));
    let w = W::new(cap, f[3] == "k");
    let node = f[6].contains('n');
    let (err, txt, txt2, ev, refused, after) = match f[0] {
        "P" => go(TokenStreamFormatter::pretty(w.clone()), &w, a.clone(), b, node),
        "C" => go(TokenStreamFormatter::compact(w.clone()), &w, a.clone(), b, node),
        _ => match TokenStreamFormatter::with_indent(u, w.clone()) { Ok(fm) => go(fm, &w, a.clone(), b, node), Err(_) => return "{\"r\":\"reject\"}".into() },
    };
    let fresh = |t: TokenStream| -> String {
        let w = W::new(-1, false);
        let e = TokenStream::new();
        match f[0] {
            "P" => go(TokenStreamFormatter::pretty(w.clone()), &w, t, e, false).1,
            "C" => go(TokenStreamFormatter::compact(w.clone()), &w, t, e, false).1,
            _ => go(TokenStreamFormatter::with_indent(unhex(f[1]), w.clone()).unwrap(), &w, t, e, false).1,
        }
    };
    let b2 = read(&t2);
    let mut o = format!("{{\"r\":\"ok\",\"err\":{},\"txt\":{},\"txt2\":{},\"refused\":{},\"after\":{}", err, jstr(&txt), jstr(&txt2), refused, after);
    if f[6].contains('e') { let _ = write!(o, ",\"full\":{},\"full2\":{}", jstr(&fresh(a.clone())), jstr(&fresh(b2.clone()))); }
    if f[6].contains('e') { let _ = write!(o, ",\"ev\":[{}]", ev.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")); }
    if f[6].contains('l') { let _ = write!(o, ",\"lex\":{},\"lex2\":{},\"src\":{},\"same\":{}", flat(&txt), flat(&txt2), flat(&t1), 
        txt.parse::<TokenStream>().map_or(false, |t| t.to_string() == a.to_string())); }
    if f[6].contains('f') {
        let mut all = vec![];
        let mut put = |k: &str, g: &dyn Fn(W) -> std::fmt::Result| {
            let w = W::new(cap, f[3] == "k");
            let r = g(w.clone());
            let s = w.0.borrow();
            all.push(format!("[{},{},{},{}]", jstr(k), r.is_err(), jstr(&s.text), s.after));
        };
        if f[0] == "P" {
            put("format_ast_node_pretty", &|w| format_ast_node_pretty(&a, w));
            put("format_tokens_pretty", &|w| format_tokens_pretty(a.clone(), w));
            put("format_tokens", &|mut w| write!(w, "{}", Toks(a.clone())));
            put("format_ast_node", &|mut w| write!(w, "{}", Ast(a.clone())));
        } else if f[0] == "C" {
            put("format_ast_node_compact", &|w| format_ast_node_compact(&a, w));
            put("format_tokens_compact", &|w| format_tokens_compact(a.clone(), w));
            put("format_tokens#", &|mut w| write!(w, "{:#}", Toks(a.clone())));
            put("format_ast_node#", &|mut w| write!(w, "{:#}", Ast(a.clone())));
        }
        let _ = write!(o, ",\"fw\":[{}]", all.join(","));
    }
    if f[6].contains('h') {
        // every other way to get the same text
        let mut all = vec![];
        let mut put = |k: &str, r: std::fmt::Result, s: String| all.push((k.to_string(), r.is_ok(), s));
        if f[0] == "P" {
            let mut s = String::new(); let r = format_ast_node_pretty(&a, &mut s); put("format_ast_node_pretty", r, s);
            let mut s = String::new(); let r = format_tokens_pretty(a.clone(), &mut s); put("format_tokens_pretty", r, s);
            let mut s = String::new(); let r = write!(s, "{}", Toks(a.clone())); put("format_tokens", r, s);
            let mut s = String::new(); let r = write!(s, "{}", Ast(a.clone())); put("format_ast_node", r, s);
        } else if f[0] == "C" {
            let mut s = String::new(); let r = format_ast_node_compact(&a, &mut s); put("format_ast_node_compact", r, s);
            let mut s = String::new(); let r = format_tokens_compact(a.clone(), &mut s); put("format_tokens_compact", r, s);
            let mut s = String::new(); let r = write!(s, "{:#}", Toks(a.clone())); put("format_tokens#", r, s);
            let mut s = String::new(); let r = write!(s, "{:#}", Ast(a.clone())); put("format_ast_node#", r, s);
        }
        let _ = write!(o, ",\"ways\":[{}]", all.iter().map(|(k, r, s)| format!("[{},{},{}]", jstr(k), r, jstr(s))).collect::<Vec<_>>().join(","));
    }
    o.push('}');
    o
}
fn main() { serve(dispatch) }
'''

def hx(s): return s.encode().hex()
def vecof(u, cap, kind, t1, t2, flags):
    k = "C" if not u["p"] else ("P" if u["s"] == "    " and "u" not in flags else "U")
    return "\t".join([k, hx(u["s"]), str(cap), kind, hx(t1), hx(t2), flags + "-"])

CORE = ["a", ",", ";", "+", "=", "(", "["]
def fams(pid):
    U = [PRETTY, COMPACT, unit("  \t")]
    t = thorough()
    if pid == "C15":
        return [dict(alpha=["a", ",", ";", "(", "{"], max=6 + t, units=U, faults=False),
                dict(alpha=["a", "+~", "=", ",", ",~", "["], max=5 + t, units=U + [unit("")], faults=False),
                dict(alpha=["a", "(", "[", "{"], max=7 + t, units=[PRETTY, COMPACT, unit("\u3000")], faults=False),
                dict(alpha=["'~", "x", '"s, t"', '"m\n\n  ,"', ";", "("], max=5, units=U, faults=False),
                dict(alpha=["!(", "a", ",", "[", "+"], max=6 + t, units=[PRETTY, COMPACT], faults=False),
                dict(alpha=["!(", "(", "{"], max=8, units=[PRETTY, COMPACT, unit("\t")], faults=False)]
    if pid == "C14":
        return [dict(alpha=["a", "+~", "=", "<~", "<", ",", "("], max=4 + t, units=U, faults=False),
                dict(alpha=["-~", "-", ">", "1", "2.5", ".~", ".", "["], max=4 + t, units=U, faults=False),
                dict(alpha=["'~", "x", "'c'", "r", "#", '"s"', "r#fn", "r#foo", "{"], max=4 + t, units=U, faults=False),
                dict(alpha=["/", "/~", "=", "&~", "&", ":~", ":", ";~", ";"], max=4, units=U, faults=False),
                dict(alpha=['r"a\\"', 'r#"q"q"#', "#", "r", '"m\n  l"', "7.", "1e+5", "+", '"s"suf', "{"], max=3 + t, units=U, faults=False),
                dict(alpha=["b", '"a\\"b"', "'\\''", "b'x'", 'b"y"', "_", "#~", "!", "("], max=3 + t, units=U + [unit("\u00a0"), unit("\r"), unit("\x0b\u2028")], faults=False),
                dict(alpha=["!(", "a", "1", "-", "="], max=5 + t, units=U, faults=False)]
    if pid == "C16":
        return [dict(alpha=["a", ",", "+~", "=", "(", "["], max=4 + t, units=[PRETTY, COMPACT, unit("\t")], faults=True),
                dict(alpha=["{"], max=8 + 2 * t, units=[PRETTY, COMPACT, unit("  ")], faults=True),
                dict(alpha=["xyz", ";", '"s"', "{"], max=4 + t, units=[PRETTY, COMPACT], faults=True),
                dict(alpha=["!(", "a", "(", ","], max=5 + t, units=[PRETTY, COMPACT], faults=True)]

# ---------------------------------------------------------------- random streams
OPS3 = ["==", "!=", "<=", ">=", "&&", "||", "->", "=>", "::", "..", "..=", "...", "<<", ">>", "<<=", ">>=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|="]
ONE = list("+-*/%^!&|=<>,;:.@#?~$")
WORDS = ["r#foo", "r#x1", "r#\u00e9", "a", "xyz", "_", "_foo", "fn", "self", "r#type", "\u00e9t\u0151", "r", "b", "br", "x1", "Self", "true"]
KEYWORDS = """as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while
async await dyn abstract become box do final macro override priv typeof unsized virtual yield try union raw safe auto default macro_rules gen r#else r#async end begin then elif def doc null None""".split()
LITS = ["0", "1", "42u8", "1.5", "1e9", "0xff_u32", '"s"', '"a b, c;"', '"\\"q\\""', "'c'", "'\\''", "'\\n'", "b'x'", 'b"y\\\\"', '"(]"', '"// x"', "0b11", "1_000", "2.5f32",
        'r"a\\b"', 'r#"q"q, "#', 'r##"x"#;"##', 'br"y,"', 'br#"("#', 'c"z"', 'cr#"w"w"#', '"s"suf', "'c'u8", '"two\n   lines"', '"con\\\n   tinued"', "1e+5", "2.5E-3", "7.", "0x1e", "0o17_u8", "1_0.0_1e1_0f64", "1foo",
        '"\u00e9\U0001f600"', "'\\u{1F600}'", "b'\\xff'", '"\\\\"', '"tab\there"', "'\"'", "0e0", "1e5f32"]
DOCS = ["", " text", " a, b;", "x (", " \u00e9 \"q\" \\ 'c'", "\t!"]
DOC = re.compile(r"//([/!])(.*)")
def expand(w):
    """doc comments are attributes"""
    out = []
    for t in w:
        m = DOC.fullmatch(t)
        if m: out += ["#"] + ["!"] * (m[1] == "!") + ["[", "doc", "=", '"' + m[2].replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t") + '"', "]"]
        else: out.append(t)
    return out
def stream(rng, n, depth=0, veils=False):
    out = []
    while len(out) < n:
        x = rng.random()
        if x < .3: out.append(rng.choice(WORDS))
        elif x < .45: out.append(rng.choice(LITS))
        elif x < .62: out.append(rng.choice(ONE))
        elif x < .74:
            o = rng.choice(OPS3); out += [c + "~" for c in o[:-1]] + [o[-1]]
        elif x < .8: out += ["'~", rng.choice(["a", "static", "_x"])]
        elif x < .86: out.append(rng.choice(",;"))
        elif x < .87: out.append("//" + rng.choice("/!") + rng.choice(DOCS))
        elif veils and x < .91 and depth < 12:
            # a group without delimiters
            out.append("!("); out += stream(rng, rng.choice([0, 1, 1, 3, max(1, n // 2)]), depth + 1, veils); out.append("!)")
        elif depth < 12:
            op, cl = rng.choice(["()", "[]", "{}"])
            out.append(op); out += stream(rng, rng.choice([0, 0, 1, 2, 5, max(1, n // 2)]), depth + 1, veils); out.append(cl)
    return out

def extreme(rng, k, small=False):
    """deep nesting, long unbroken lines, long tokens, many siblings"""
    if k % 4 == 0:
        w, cl = [], []
        # anything that is no group
        def some(): return rng.choice([["a"], [","], [";"], ["+"]]) if rng.random() < .3 else stream(rng, rng.choice([1, 1, 2, 3]), 12)
        for _ in range(rng.choice([18, 34, 66] if k or small else [130])):
            if rng.random() < .3: w += some()
            o, c = rng.choice(["()", "[]", "{}"]); w.append(o); cl.append(c)
        w += rng.choice([[], ["a"], ["a", ",", "b"], some(), ["&~", "'~", "a", "x"]])
        while cl:
            w.append(cl.pop())
            if rng.random() < .3: w += some()
        return w
    if k % 4 == 1: return [rng.choice(WORDS + LITS + ["+", "=", ":"]) for _ in range(rng.choice([60, 140, 220] if k > 8 else [1300, 2100] if k == 5 else [600]))]
    if k % 4 == 2: return [rng.choice(["x" * rng.choice([90, 260] if small else [90, 260, 1100]), "a", '"' + "s t" * 40 + '"', ",", "(", "+"]) for _ in range(12)]
    return [t for _ in range(500 if k == 3 else 40) for t in rng.choice([["(", ")"], ["[", "a", "]"], ["a", ","], ["{", "}", ";"]])]

def around(rng):
    """every word, literal and character next to everything that can have a place of its own"""
    out = []
    for t in dict.fromkeys(KEYWORDS + WORDS + LITS + [c for c in ONE] + ["'~"]):
        x = [t, "a"] if t == "'~" else [t]
        g = rng.choice(["()", "[]", "{}"]); h = rng.choice(["()", "[]", "{}"])
        out.append([g[0], "a", g[1], *x, h[0], *x, "b", *x, h[1], *x, h[0], h[1], *x])
        out.append(rng.choice([[*x, *x, ",", *x, ";", *x, "+~", "=", *x, ",~", "=", *x], [g[0], *x, g[1], *x, h[0], g[0], *x, ",", *x, g[1], h[1], *x, ";", *x]]))
    return out

def closed(w):
    st = []
    for t in w:
        if t in "([{": st.append({"(": ")", "[": "]", "{": "}"}[t])
        elif t in ")]}": st.pop()
    return w + st[::-1]

def legal(w):
    """no accidental comments"""
    return all(not (a == "/~" and b[0] in "/*") for a, b in zip(w, w[1:]))

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + int(pid[1:]))
    exe = build("chkfmt", {"main.rs": MAIN})
    F = fams(pid)
    names = {t for f in F for t in f["alpha"]}
    spec = jsonfile(dict(toks=toktable(names), chars=chartable(BASE), fams=F), f"{pid}-mc.json")
    outs, st = tlc("MCFmt", dict(FMT_JSON=spec))
    rep.states(st)
    log(f"{pid}: TLC enumerated {len(outs)} behaviours, {st['distinct']} states")
    flags = dict(C14="l", C15="h", C16="ef")[pid]
    lines, meta = [], []
    for o in outs:
        t1, _ = render(o["w"], rng if rng.random() < .3 else None); t2, _ = render(o["w2"])
        fl = flags + rng.choice(["", "n"]) + rng.choice(["", "", "u"])
        lines.append(vecof(o["u"], o["cap"], "c", t1, t2, fl)); meta.append((o, t1))
    ans = Run(exe).all(lines)
    for (o, t1), a in zip(meta, ans):
        why = judge(pid, o, a)
        if why: rep.violation(why, stream=o["w"], source=t1, unit=o["u"], capacity=o["cap"], expected=dict(txt=o["txt"], err=o["err"], again=o["txt2"]), got=a)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["behaviours_replayed"] = len(ans)
    for o, t1 in rng.sample(meta, 2): rep.sample(dict(direction="spec->code", stream=o["w"], unit=o["u"], capacity=o["cap"], text=o["txt"]))
    if pid == "C14": indents(rep, exe)
    recordings(rep, pid, exe, rng)
    return rep

def judge(pid, o, a):
    if a["r"] != "ok": return f"the formatter did not answer: {a}"
    if pid == "C15":
        if a["err"]: return "formatting failed although the destination did not"
        if a["txt"] != o["txt"]: return "wrong layout"
        if a["txt2"] != o["txt2"]: return "the same formatter produces a different text when used again"
        for k, ok, s in a.get("ways", []):
            if not ok or s != o["txt"]: return f"{k} produces a different text"
    elif pid == "C14":
        if a["err"]: return "formatting failed although the destination did not"
        seen, veiled = [t for t in o["w"] if t not in ("!(", "!)")], "!(" in o["w"]
        if not veiled and [t[0] for t in a["src"]] != o["w"]: raise ToolError(f"the source text does not stand for the stream: {o['w']} {a['src']}")
        if a["lex"] != None and not isinstance(a["lex"], list) or [t[0] for t in a["lex"]] != seen: return "the text does not read back as the stream"
        if not veiled and not a["same"]: return "the text does not read back as the stream"
        if not isinstance(a["lex2"], list) or [t[0] for t in a["lex2"]] != [t for t in o["w2"] if t not in ("!(", "!)")]: return "the text of the second use does not read back as the stream"
    else:
        if a["after"]: return "the destination was written to after it had failed"
        if a["err"] != a["refused"]: return "failure of the destination not reported" if a["refused"] else "failure reported although the destination did not fail"
        # relative to what fresh formatters write without faults (whether that is the right layout is C15's concern)
        if o["cap"] >= 0 and a["err"] != (o["cap"] < len(a["full"])): return "wrong result"
        if a["txt"] != (a["full"][:o["cap"]] if a["err"] else a["full"]): return "what was written is not a prefix of the fault-free output"
        for k, e, t, after in a.get("fw", []):
            if (e, t, after) != (a["err"], a["txt"], 0): return f"{k} handles a failing destination differently"
        if a["txt2"] != a["full2"]: return "the formatter does not format the next stream as a fresh one would"
    return None

def indents(rep, exe):
    """an indentation string is accepted exactly when every character is white space"""
    spec = jsonfile(dict(chars=chartable(BASE)), "C14-ind.json")
    outs, st = tlc("Indent", dict(FMT_JSON=spec)); rep.states(st)
    ans = Run(exe).all(["I\t" + hx(o["s"]) for o in outs])
    for o, a in zip(outs, ans):
        if a["r"] != "ok" or a["ok"] != o["ok"] or a["ok2"] != o["ok"]:
            rep.violation("indentation string wrongly " + ("rejected" if o["ok"] else "accepted"), string=o["s"], got=a)
    rep.traces(len(ans)); rep.cov["indentation_strings"] = len(ans)

def recordings(rep, pid, exe, rng):
    n = (2500 if thorough() else 400)
    streams = []; nx = 0; forced = {}
    for k in range(16 if not thorough() else 48):
        w = closed(extreme(rng, k, pid == "C14"))
        if legal(w): streams.append(w); nx += 1
    near = [w for w in around(rng) if legal(w)]; streams += near if pid != "C16" else rng.sample(near, 60)
    n += len(streams) - nx
    while len(streams) < n:
        w = stream(rng, rng.choice([1, 3, 8, 15, 30, 60]), veils=rng.random() < .3)
        if len(w) <= 250 and legal(w): streams.append(w)
    if pid == "C16":
        # long tokens, with the destination giving up at any place within them
        for _ in range(900 if thorough() else 160):
            size = rng.choice([20, 70, 140, 270, 530])
            x = rng.choice([lambda: '"' + "st " * (size // 3) + '"', lambda: 'b"' + "z" * size + '"', lambda: "x" * size, lambda: "1" + "0" * size, lambda: 'r#"' + '"q' * (size // 2) + '"#', lambda: '"' + "\\n" * (size // 2) + '"'])()
            w = rng.choice([[x], [x, "b"], ["a", x, ","], ["(", x, ")"], ["{", "a", ",", x, "}", "c"], ["+~", "=", x], ["[", x, "]", ";"]])
            forced[len(streams)] = rng.randrange(0, len(x) + 8); streams.append(w)
    lines, meta = [], []
    for n, w in enumerate(streams):
        u = rng.choice([PRETTY, COMPACT, unit("\t"), unit("  "), unit(""), unit("\u00a0 "), unit(" " * 11)])
        if len(lines) < nx: u = (unit(" "), unit("\t"), rng.choice([unit(" "), COMPACT, PRETTY if len(w) < 120 else COMPACT]))[len(lines) // 4 % 3]
        t1, _ = render(w, rng); w = expand(w)
        cap, kind = -1, "c"
        if pid == "C16" and rng.random() < .85:
            kind = rng.choice("ck")
            cap = rng.randrange(0, max(1, int(len(t1) * (1.5 if kind == "c" else .6))))
        if n in forced: cap, kind = forced[n], "c"
        lines.append(vecof(u, cap, kind, t1, t1, "e" + rng.choice(["", "n"]) + "l" * (pid == "C14"))); meta.append((w, u, t1, cap, kind))
    ans = Run(exe).all(lines)
    recs, idx = [], []
    chars = set(BASE)
    for k, ((w, u, t1, cap, kind), a) in enumerate(zip(meta, ans)):
        if a["r"] != "ok": rep.violation(f"the formatter did not answer: {a}", source=t1); continue
        chars |= set(a["txt"]) | set(a["txt2"])
        if pid == "C14" and "!(" not in w and (not isinstance(a["lex"], list) or [t[0] for t in a["lex"]] != [t[0] for t in a["src"]]): rep.violation("the text does not read back as the stream", source=t1, unit=u, got=a); continue
        if pid != "C16" and a["err"]: rep.violation("formatting failed although the destination did not", source=t1); continue
        recs.append(dict(w=w, u=u, ev=a["ev"], err=a["err"], refused=a["refused"], after=a["after"], txt2=a["txt2"], full=a["full"],
                         see=dict(C14="lex", C15="layout", C16="fault")[pid])); idx.append(k)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    names = {t for w, *_ in meta for t in w}
    spec = jsonfile(dict(toks=toktable(names), chars=chartable(chars), fams=[dict(alpha=[], max=0, units=[], faults=False)], recs=recs), f"{pid}-tr.json")
    outs, st = tlc("FmtTrace", dict(FMT_JSON=spec), xss="256m")
    rep.states(st)
    if len(outs) != len(recs): raise ToolError(f"TLC judged {len(outs)} of {len(recs)} recordings")
    for o in outs:
        if not o["ok"]:
            k = idx[o["rec"] - 1]; w, u, t1, cap, kind = meta[k]
            rep.violation("recording rejected by the specification", source=t1, unit=u, capacity=cap, kind=kind, expected=o["want"], got=ans[k])
    rep.traces(len(recs)); rep.cov["recordings_validated"] = len(recs)
    rep.cov["longest_recording_tokens"] = max(len(w) for w, *_ in meta)
    for k in rng.sample(range(len(meta)), 2): rep.sample(dict(direction="code->spec", text=meta[k][2][:150], unit=meta[k][1], capacity=meta[k][3]))
