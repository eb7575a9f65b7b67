"""C28: the same tokens from elsewhere -- with invisible groups, and inside the compiler -- decided with the Peg and Invis specifications."""
import random
from core import *
from gram import *
from peg import *
import catalog, pegchecks

SEE = See(ok=True, v=True)
FAMS = ["C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C12"]

def skeleton(w): return ["(" if t in "([{" else ")" if t in ")]}" else "t" for t in w]

def scatter(rng, w, most):
    """some invisible groups in a larger input: pairs of places"""
    st, end = [], {}
    for k, t in enumerate(w, 1):
        if t in "([{": st.append(k)
        elif t in ")]}": end[st.pop()] = k
    out = []
    for _ in range(most if w else 0):
        i = rng.randint(1, len(w)); j = i
        if w[i - 1] in ")]}": continue
        stop = rng.choice([1, 1, 2, 3, 6])
        n = 0; last = None
        while j <= len(w) and w[j - 1] not in ")]}" and n < stop:
            last = end.get(j, j); j = last + 1; n += 1
        p = [i, last]
        if all(b < i or last < a or (i <= a and b <= last) or (a <= i and last <= b) for a, b in out): out.append(p)
    return out

def text_of(veils): return ";" + ",".join(f"{a}-{b}" for a, b in veils)

def judge(rep, how, g, w, text, exp, a, pl, places=True, /, **more):
    got = outcome(a, pl, places)
    why = differs(SEE, exp, got, places) or (pegchecks.order(w, a) if got["ok"] else None)
    if not why and got["ok"] and not all(a.get("rt", [True])): why = "parsing what is printed again does not give an equal node"
    if why: rep.violation(f"{how}: {why}", grammar=g.rust(), tokens=w, text=text, expected=exp, got=a, **more)
    return got

# ------------------------------------------------------------------ inside the compiler
def manifest(name, proc, deps):
    h = link_harness()
    return (f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n' + ('[lib]\nproc-macro = true\n' if proc else "")
            + f'\n[dependencies]\n{deps}\n[workspace]\n').replace("@H", h).replace("@R", REPO)

GO = '''
extern crate proc_macro;
use harness::*;
use parsel::{TokenStream, TokenTree};
fn go_as<T: Node>(ts: TokenStream) -> String { answer(parsel::parse2::<T>(ts), "dpsr", "") }
#[proc_macro]
pub fn go(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let mut it = TokenStream::from(input).into_iter();
    let n: usize = it.next().unwrap().to_string().parse().unwrap();
    let veils = |ts: &TokenStream| {
        fn count(ts: TokenStream) -> usize {
            ts.into_iter().map(|t| match t {
                TokenTree::Group(g) => count(g.stream()) + (g.delimiter() == parsel::proc_macro2::Delimiter::None) as usize,
                _ => 0,
            }).sum()
        }
        count(ts.clone())
    };
    let ts: TokenStream = it.collect();
    let k = veils(&ts);
    let s = guarded(move || match n { @ARMS@ _ => unreachable!() });
    let mut l = parsel::proc_macro2::Literal::string(&format!("{} {}", k, s));
    l.set_span(parsel::Span::call_site());
    TokenStream::from(TokenTree::Literal(l)).into()
}
'''

OPS1 = set("+*/%^|&") 
def expression(ts):
    """could these tokens be captured as an expression of Rust?"""
    k = 0
    def atom():
        nonlocal k
        if k >= len(ts): return False
        i = tokinfo(ts[k])
        if ts[k] in "([":
            cl = ")" if ts[k] == "(" else "]"; k += 1; first = True
            while k < len(ts) and ts[k] != cl:
                if not chain(): return False
                if k < len(ts) and ts[k] == ",": k += 1
                elif k >= len(ts) or ts[k] != cl: return False
            k += 1
            return k <= len(ts)
        if i["k"] == "lit" or (i["k"] == "ident" and ts[k] not in ("union", "gen")): k += 1; return True
        return False
    def chain():
        nonlocal k
        if not atom(): return False
        while k + 1 < len(ts) and ts[k] in OPS1:
            k += 1
            if not atom(): return False
        return True
    return chain() and k == len(ts)

def compiler(rep, fam, items, rng, plain):
    """items: (grammar, tokens, expected outcome); the same grammars in a procedural macro, read by rustc"""
    mods = {f"g{i}.rs": "#![allow(dead_code, unused_imports, non_snake_case)]\n" + g.rust() for i, g in enumerate(fam)}
    lib = "#![allow(dead_code, unused_imports, non_snake_case, non_camel_case_types)]\n" + "\n".join(f"mod g{i};" for i in range(len(fam)))
    lib += GO.replace("@ARMS@", " ".join(f"{i} => go_as::<g{i}::Start>(ts)," for i in range(len(fam))))
    d = package("invmac", dict(mods, **{"lib.rs": lib}))
    open(os.path.join(d, "Cargo.toml"), "w").write(manifest("invmac", True, 'parsel = { path = "@R/parsel" }\nharness = { path = "@H" }'))
    src = ["#![allow(unused_macros, unused_parens)]", "use invmac::go;", "#[macro_use] mod caps;", "fn main() { let answers = ["]
    meta = []; caps = []
    line = len(src)
    for gi, w, exp in items:
        text, pos = render(w, rng)
        if any(t in "$" for t in w): continue
        ranges = []
        if rng.random() < .5:
            ranges = [r for r in sorted(scatter(rng, w, 3)) if expression(w[r[0] - 1:r[1]])]
            ranges = [r for k, r in enumerate(ranges) if all(b < r[0] for a, b in ranges[:k])]
        if ranges:
            n = len(caps)
            body = list(w); args = []
            for k, (a, b) in reversed(list(enumerate(ranges))):
                args.insert(0, render(w[a-1:b])[0]); body[a-1:b] = [f"$e{k}"]
            caps.append(f"macro_rules! cap{n} {{ ({', '.join(f'$e{k}:expr' for k in range(len(ranges)))}) => {{ go!({gi} {render(body)[0]}) }} }}")
            s = f"cap{n}!({', '.join(args)})"
            meta.append((gi, w, exp, s, None, len(ranges)))
        else:
            head = f"go!({gi} "; s = head + text + ")"
            def shift(p): return (p[0] + line, p[1] + (len(head) if p[0] == 1 else 0))
            meta.append((gi, w, exp, s, [(shift(p[0]), shift(p[1])) for p in pos], 0))
        src.append(s + ","); line += s.count("\n") + 1
    src.append("]; for a in answers { println!(\"{}\", a) } }")
    d = package("invuse", {"main.rs": "\n".join(src), "caps.rs": "\n".join(["use invmac::go;"] + caps)})
    open(os.path.join(d, "Cargo.toml"), "w").write(manifest("invuse", False, f'invmac = {{ path = "{os.path.join(BUILD, "gen", "invmac")}" }}'))
    drop_stale()
    p = cargo(["build", "--offline", "-q"], d, 800)
    if p.returncode != 0:
        t = p.stdout.decode("utf-8", "replace")
        # the compiler was killed, or ran away, while it was running the parser
        if "SIGSEGV" in t or "overflowed its stack" in t or "SIGABRT" in t:
            rep.violation("inside the compiler: the parser does not answer", output=t[-3000:]); return 0
        raise ToolError("the harness does not build:\n" + t[-6000:])
    q = subprocess.run([os.path.join(TARGET, "debug", "invuse")], stdout=subprocess.PIPE, timeout=60)
    ans = q.stdout.decode().splitlines()
    if len(ans) != len(meta): raise ToolError(f"{len(ans)} answers from the compiler, not {len(meta)}")
    nv = 0
    for (gi, w, exp, s, pos, veils), l in zip(meta, ans):
        k, a = l.split(" ", 1); a = json.loads(a); nv += int(k) > 0
        if int(k) != veils: raise ToolError(f"{k} invisible groups from the compiler, not {veils}: {s}")
        pl = Places([])
        if pos:
            # the compiler does not join locations: what has several tokens is where its first one is
            pl = Starts(pos, w, exp)
        got = judge(rep, "inside the compiler", fam[gi], w, s, exp, a, pl, bool(pos))
        f = plain.get((gi, tuple(w)))
        if got["ok"] and f and (f["disp"], f["alt"]) != (a["disp"], a["alt"]):
            rep.violation("inside the compiler: another text is displayed", grammar=fam[gi].rust(), text=s, expected=[f["disp"], f["alt"]], got=[a["disp"], a["alt"]])
    rep.cov["inside_the_compiler"] = len(ans); rep.cov["captured_by_a_macro"] = nv
    rep.traces(len(ans))
    for i in rng.sample(range(len(meta)), 2): rep.sample(dict(source=meta[i][3][:300], answer=ans[i][:200]))
    return len(ans)

class Starts(Places):
    """places known by their starts"""
    def __init__(self, pos, w, exp):
        Places.__init__(self, pos); self.end = {}
        def go(v):
            if v["k"] == "tok": self.end[v["i"]] = v["j"]
            for c in v["c"]: go(c)
        if exp["ok"]: go(exp["v"])
    def rng(self, q):
        i, j = Places.rng(self, q)
        # a single token, and the first of several
        return (i, self.end.get(i, j)) if j == i else (i, j)

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 28); t = thorough()
    fam = []
    for f in FAMS:
        l = getattr(catalog, f)() + catalog.STRAY(f)
        fam += l if t else rng.sample(l, min(len(l), 6))
    for _ in range(20 if t else 6):
        g = catalog.random_gram(rng, catalog.OPS[rng.choice(FAMS)])
        if g: g.max = g.mmax = 3; fam.append(g)
    for g in fam: g.unloc = False; g.max = min(g.max, 6 if t else 5); g.mmax = min(g.mmax, 5 if t else 4)
    lits = E("L", [(f"V{i}", "tuple", [("0", LIT(k))]) for i, k in enumerate(["LitUint", "LitFloat", "LitStr", "LitChar", "LitByte", "LitByteStr", "LitBool", "LitInt"])])
    fam.append(Gram([lits, catalog.sn("Top", l=any_(R("L")), x=maybe(P("-")), more=any_(WORD))], R("Top"),
                    ["1", "31", "-", "2.5", '"s"', "'c'", "b'c'", 'b"s"', "true", "r#fn"], 3))
    last = len(fam) - 1
    fam += catalog.WIDE()
    exe = build("chkc28", main_rs(fam))
    log(f"C28: harness built with {len(fam)} grammars")
    outs, st = tlc("MCPeg", dict(PEG_JSON=jsonfile(dict(toks=toks_of(fam), grams=[g.spec() for g in fam]), "C28-mc.json"))); rep.states(st)
    log(f"C28: TLC enumerated {len(outs)} behaviours, {st['distinct']} states")
    # larger inputs; what is to be seen of them is prescribed by the specification
    big = pegchecks.long_inputs(pid, fam, rng, 1500 if t else 250, 60) + rng.sample(c := pegchecks.chains(pid, fam, rng, [64, 300]), min(len(c), 40 if t else 10))
    for n in (12, 40): big += [(len(fam) - 1, catalog.deep_input(rng, n)) for _ in range(4)]
    # ---- where invisible groups can be
    sk = sorted({tuple(skeleton(o["w"])) for o in outs if o["w"]})
    cases = [dict(w=skeleton(w), veils=scatter(rng, w, rng.choice([1, 2, 3, 8]))) for _, w in big if w]
    # in the order in which they are made: the inner ones first
    short = [c for c in cases if len(c["w"]) <= 120]
    ways, st = tlc("MCInvis", dict(INVIS_JSON=jsonfile(dict(skeletons=[list(s) for s in sk], most=2, cases=short), "C28-inv.json")), xss="512m"); rep.states(st)
    by = {}
    for o in ways: by.setdefault(tuple(o["w"]), []).append(o["veils"])
    log(f"C28: {len(sk)} skeletons, {len(ways)} ways to place invisible groups, {len(short)} larger ones proper")
    lines, meta = [], []
    some = 10 if t else 3
    for o in outs:
        if not o["loc"] or not o["w"]: continue
        l = by[tuple(skeleton(o["w"]))]
        keep = l if len(l) <= some else rng.sample(l, some if o["out"]["ok"] or t else 2)
        for v in keep:
            text, pos = render(o["w"], rng if rng.random() < .3 else None)
            m = rng.choice(["dprv", "dprv", "dprjv", "dprwv"]); lines.append(vec(o["g"] - 1, m + text_of(v), text)); meta.append((o["g"] - 1, o["w"], text, pos, v, o["out"], m))
    ans = Run(exe).all(lines)
    acc = 0
    for (gi, w, text, pos, v, exp, m), a in zip(meta, ans):
        got = judge(rep, "in invisible groups", fam[gi], w, text, exp, a, Places(pos), "w" not in m, groups=v, mode=m)
        acc += bool(got["ok"])
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["with_invisible_groups"] = len(ans); rep.cov["of_these_accepted"] = acc
    for i in rng.sample(range(len(meta)), 2): rep.sample(dict(text=meta[i][2][:200], groups=meta[i][4], answer=ans[i]["r"]))
    log(f"C28: {len(ans)} runs with invisible groups, {acc} accepted")
    # ---- larger ones: a recording with groups is judged as one without
    lines, meta, recs = [], [], []
    cs = iter(cases)
    for gi, w in big:
        v = next(cs)["veils"] if w else []
        text, pos = render(w, rng)
        lines.append(vec(gi, (m := rng.choice(["dpv", "dpjv", "dpwv"])) + text_of(v), text)); meta.append((gi, w, text, pos, v, "w" not in m))
    ans = Run(exe).all(lines); idx = []
    for k, ((gi, w, text, pos, v, loc), a) in enumerate(zip(meta, ans)):
        got = outcome(a, Places(pos), loc)
        if got["ok"] is None: rep.violation(f"in invisible groups: no answer: {a}", grammar=fam[gi].rust(), text=text, groups=v); continue
        if got["ok"] and (why := pegchecks.order(w, a)): rep.violation("in invisible groups: " + why, grammar=fam[gi].rust(), text=text, groups=v)
        recs.append(dict(g=gi + 1, w=w, out=dict(ok=got["ok"], v=flatten(got["v"]), er=NOER), seeOk=True, seeV=True, seeAt=False, seeMsg=False, seeCh=False, loc=loc)); idx.append(k)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    trs, st = tlc("PegTrace", dict(PEG_JSON=jsonfile(dict(toks=toks_of(fam, [x for _, w in big for x in w]), grams=[g.spec() for g in fam], recs=recs), "C28-tr.json")), xss="512m"); rep.states(st)
    if len(trs) != len(recs): raise ToolError(f"TLC judged {len(trs)} of {len(recs)} recordings")
    for o in trs:
        if not o["ok"]:
            gi, w, text, pos, v, loc = meta[idx[o["rec"] - 1]]
            rep.violation("in invisible groups: recording rejected by the specification", grammar=fam[gi].rust(), tokens=w, text=text, groups=v, expected=o["out"], got=ans[idx[o["rec"] - 1]])
    rep.traces(len(recs)); rep.cov["recordings_validated"] = len(recs); rep.cov["longest_recording_tokens"] = max(len(w) for _, w in big)
    # ---- inside the compiler
    few = sorted(rng.sample(range(last), 40 if t else 16)) + list(range(last, len(fam)))
    ok = [o for o in outs if o["out"]["ok"] and o["g"] - 1 in few]; no = [o for o in outs if not o["out"]["ok"] and o["g"] - 1 in few]
    n = 1200 if t else 300
    pick = rng.sample(ok, min(len(ok), n)) + rng.sample(no, min(len(no), n // 3))
    # literals of every kind always, and signed ones of every grammar
    lit = [o for o in ok if o["g"] - 1 == last]; neg = [o for o in ok if any(p == "-" and q[0].isdigit() for p, q in zip(o["w"], o["w"][1:]))]
    pick += rng.sample(lit, min(len(lit), 60)) + rng.sample(neg, min(len(neg), 30))
    items = [(o["g"] - 1, o["w"], o["out"]) for o in pick]
    for o in trs:
        k = idx[o["rec"] - 1]; gi, w, text, pos, _, loc = meta[k]
        # the recording has been judged: it is what is prescribed
        if o["ok"] and loc and gi in few and len(w) <= 80 and len(items) < n * 2: items.append((gi, w, outcome(ans[k], Places(pos))))
    plain = {}
    f = Run(exe).all([vec(gi, "s", render(w)[0]) for gi, w, _ in items])
    for (gi, w, _), x in zip(items, f):
        if x["r"] == "ok": plain[gi, tuple(w)] = x
    back = {g: k for k, g in enumerate(few)}
    compiler(rep, [fam[g] for g in few], [(back[g], w, e) for g, w, e in items], rng, {(back[g], w): x for (g, w), x in plain.items()})
    rep.cov["grammars"] = len(fam)
    return rep
