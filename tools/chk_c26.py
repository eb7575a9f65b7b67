"""C26: termination, linear work and bounded stack (Work)."""
import random
from core import *
from gram import *
from peg import *
from effort import fit
import catalog, pegchecks
from catalog import V, VN, T, st, sn, a, b, c

LIB = open(os.path.join(HERE, "worklib.rs")).read()
FACTOR = 4            # how often the real parser may try what has to be tried once
SLACK = 16 << 10      # stack it may use more on long inputs than on short ones (it uses none)
KB = 12               # kilobytes of memory it may request per token (it requests some hundred bytes)
COM, SEMI = P(","), P(";")

def flat():
    """flat grammars: repetitions, lists and chains of every kind of item, alone, in groups, and inside productions"""
    items = lambda: [([], WORD), ([], par(maybe(b))), ([st("It", a, P("+"))], R("It")), ([E("It", [V("X", a, P("-")), VN("Y", x=b, y=P("*")), V("Z", c)])], R("It")),
                     ([], either(a, grp("[", b))), ([sn("It", x=a, y=maybe(P("="), WORD), z=P("?"))], R("It"))]
    gs = []
    def add(types, start, alpha=None):
        g = Gram(types, start, alpha or ["a", "b", "c", "+", "-", ","], 4); g.flat = True
        for n in g.nodes:
            if n["op"] == "group" and n["s"] not in g.alpha: g.alpha.append(n["s"])
        gs.append(g)
    for wrap in (lambda x: x, lambda x: grp("{", x)):
        for k in range(6):
            for how in (any_, lambda x: punct(x, COM), lambda x: sep(x, COM), lambda x: left(COM, x), lambda x: right(COM, x), many):
                if how is many and k == 1: continue
                t, i = items()[k]
                if wrap(1) != 1 and k not in (0, 3): continue
                add(t, wrap(how(i)))
    # operators and separators that are productions themselves
    op = lambda: either(P("=="), either(P("+"), P("-")))
    for f in (left, right): add([], f(op(), WORD)); add([], f(par(maybe(a)), b)); add([E("Op", [V("Le", P("<=")), V("Lt", P("<"))])], f(R("Op"), LIT("LitUint")), ["1", "<~", "=", "<"])
    add([], sep(WORD, op())); add([], punct(a, op())); add([], sep(LIT("LitInt"), P("::")), ["1", "-", ":~", ":"])
    # below productions, behind and before other fields; two-level
    add([sn("Top", k=IDENT, eq=P("="), xs=sep(WORD, P("|")), end=maybe(SEMI))], R("Top"), ["a", "=", "|", ";"])
    add([E("Top", [V("A", left(P("+"), a), SEMI), V("B", right(P("-"), b), SEMI), V("C", any_(c))])], R("Top"), ["a", "b", "c", "+", "-", ";"])
    add([], maybe(P("="), right(P("+"), WORD)), ["a", "=", "+"]); add([], either(left(P("+"), a), punct(b, COM)))
    add([], any_(grp("[", punct(WORD, COM)))); add([], right(P("="), left(P("+"), left(P("*"), WORD))), ["a", "=", "+", "*"])
    add([sn("Top", xs=many(R("St"))), sn("St", n=IDENT, eq=P("="), v=left(P("+"), LIT("Lit")), s=SEMI)], R("Top"), ["a", "=", "1", "+", ";"])
    return gs

def nested():
    """repetitions inside repetitions, through groups: nesting must not multiply the work"""
    gs = []
    def add(types, start, alpha): gs.append(Gram(types, start, alpha + ["("], 4))
    for i, how in enumerate((any_, lambda x: punct(x, COM), lambda x: sep(x, COM), lambda x: left(COM, x), lambda x: right(COM, x), lambda x: many(x))):
        add([E("N", [V("G", par(box(how(R("N"))))), V("W", WORD)])], how(R("N")), ["a", ","])
        add([E("N", [V("W", WORD), V("G", par(box(how(R("N"))))), ])], R("N"), ["a", ","])
        add([st("N", either(WORD, par(box(how(R("N"))))))], how(R("N")), ["a", ","])
        add([st("N", a, maybe(P("="), par(box(how(R("N"))))))], how(R("N")), ["a", "=", ","])
    add([E("N", [V("G", par(box(R("N")))), V("W", WORD)])], R("N"), ["a"])
    add([sn("N", x=either(par(box(R("N"))), a))], R("N"), ["a"])
    add([sn("N", x=maybe(par(box(R("N"))), b))], R("N"), ["b"])
    # two alternatives with the same beginning: here the work does multiply, by the meaning of ordered choice
    add([E("N", [V("A", par(box(R("N"))), P("+")), V("B", par(box(R("N")))), V("W", a)])], R("N"), ["a", "+"])
    return gs

def depth_input(s, d):
    """a sentence nested d deep"""
    def go(k, d, out, lim):
        N = s.g.nodes[k-1]; o = N["op"]; ch = N["a"]
        if lim <= 0: s.gen(k, 2, out); return
        if o == "seq":
            for x in ch: go(x, d, out, lim - 1)
        elif o in ("alt", "either"):
            tgt = [x for x in ch if reaches(s, x)] if d > 0 else []
            if tgt: go(s.rng.choice(tgt), d, out, lim - 1)
            else:
                x = min(ch, key=lambda x: (reaches(s, x), s.mind[x])); go(x, 0, out, lim - 1)
        elif o == "group":
            out.append(N["s"]); go(ch[0], d - 1, out, lim - 1); out.append({"(": ")", "[": "]", "{": "}"}[N["s"]])
        elif o == "maybe":
            if d > 0:
                for x in ch: go(x, d, out, lim - 1)
        elif o in ("any", "punct", "sep", "left", "right"):
            if d > 0 or o in ("sep", "left", "right"):
                if s.rng.random() < .3 and o != "any": go(ch[0], 0, out, lim - 1); go(ch[1], 0, out, lim - 1)
                go(ch[0], d, out, lim - 1)
        else: s.gen(k, 2, out)
    out = []
    go(s.g.startnode, d, out, 40 * d + 40)
    return out
def reaches(s, k, seen=None):
    """does the production contain a group it can sit in again?"""
    seen = seen or set()
    if k in seen: return False
    seen.add(k)
    N = s.g.nodes[k-1]
    return N["op"] == "group" or any(reaches(s, x, seen) for x in N["a"])

def line(gi, stack, places, text): return f"{gi}\t{stack}\t{int(places)}\t{text.encode().hex()}"
def laid(w):
    """all tokens on one line, starting behind its beginning"""
    text = [" "]; col = 1; pos = []
    for t in w:
        s = toktext(t); pos.append(col)
        if not (len(t) == 2 and t[1] == "~"): s += " "
        text.append(s); col += len(s)
    return "".join(text), pos

def main(grams):
    files = {"worklib.rs": LIB}
    out = ["#![allow(dead_code, unused_imports, non_snake_case, non_camel_case_types)]", "mod worklib;", "use harness::*; use worklib::*;",
           "#[global_allocator] static COUNTING: Counting = Counting;"]
    arms = []
    for i, g in enumerate(grams):
        files[f"g{i}.rs"] = "#![allow(dead_code, unused_imports, non_snake_case)]\nuse crate::worklib::Pr;\n" + g.rust("Clone, PartialEq, Eq, Hash, Debug, Parse, ToTokens", probe="Pr")
        out.append(f"mod g{i};"); arms.append(f"{i} => work::<g{i}::Start>(f[1], f[2] == \"1\", unhex(f[3])),")
    out.append("fn dispatch(f: &[&str]) -> String { match f[0].parse::<usize>().unwrap() { " + "\n".join(arms) + " _ => unreachable!() } }")
    out.append("fn main() { serve(dispatch) }")
    files["main.rs"] = "\n".join(out)
    return files

def at(a, pos, n):
    """attempts per place"""
    ix = {c: i for i, c in enumerate(pos)}; r = [0] * (n + 1); lost = 0
    for l, c, k in a["at"]:
        if (l, c) == (0, 0): r[n] += k
        elif c in ix: r[ix[c]] += k
        else: lost += k
    return r, lost

def big_input(g, rng, n):
    w = pegchecks.outer(Sampler(g, rng), g.startnode, n)
    return w

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 26); t = thorough()
    fl = flat(); ne = nested(); other = [catalog.C08()[i] for i in range(3)] + [Gram(catalog.deep_expr(), R("Expr"), ["x", "1", "+", "*", "-", "=", "(", "[", ".", ","], 4), Gram(catalog.json_gram(), R("Json"), ['"k"', ":", ",", "null", "1", "{", "["], 4)]
    for _ in range(30 if t else 8):
        g = catalog.random_gram(rng, ["ref", "maybe", "any", "punct", "many", "sep", "left", "right", "grp", "either", "enum"])
        if g: other.append(g)
    grams = fl + ne + other
    exe = build("chkc26", main(grams))
    log(f"C26: harness built with {len(grams)} grammars")

    # ---- the model: it ends on every input, tries everything once per place, on a bounded stack
    for g in grams:
        lim = 3000 if t else 260
        g.max = max([2] + [m for m in range(2, 7) if sum(len(g.alpha) ** k for k in range(m + 1)) <= lim]); g.mmax = g.max
    outs, stt = tlc("MCWork", dict(PEG_JSON=jsonfile(dict(toks=toks_of(grams), grams=[g.spec() for g in grams]), "C26-mc.json")), timeout=840); rep.states(stt)
    log(f"C26: TLC enumerated {len(outs)} inputs, {stt['distinct']} states; every behaviour ends")
    cases = [laid(o["w"]) for o in outs]
    ans = Run(exe).all([line(o["g"] - 1, 8192, True, text) for o, (text, _) in zip(outs, cases)])
    for o, (text, pos), x in zip(outs, cases, ans):
        why = None
        if x["r"] != "ok": why = f"no answer: {x}"
        else:
            got, lost = at(x, pos, len(o["w"]))
            if x["ok"] != o["ok"]: why = "accepted or rejected differently"
            elif x["tries"] > FACTOR * o["tries"] + 16: why = f"{x['tries']} attempts where {o['tries']} are needed"
            elif any(p > FACTOR * q + FACTOR for p, q in zip(got, o["at"])): why = f"attempts {got} at the tokens where {o['at']} are needed"
        if why: rep.violation(why, grammar=grams[o["g"]-1].rust(), text=text, needed=o, got=x)
    if len(ans) < len(outs) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["inputs_replayed"] = len(ans)

    # ---- recordings: longer and deeply nested inputs, attempts at every place
    ins = []
    for i, g in enumerate(grams):
        s = Sampler(g, rng, big=4); k = 0
        while k < (12 if t else 3):
            w = s.sentence(rng.choice([3, 5, 7]), limit=60); k += 1
            w = w if rng.random() < .5 else s.mutate(w)
            if len(w) <= 60 and fit(g, w): ins.append((i, w))
    for j, g in enumerate(ne):
        i = len(fl) + j; s = Sampler(g, rng, big=1)
        multi = j == len(ne) - 1
        for d in ([2, 4, 6] if multi else [3, 8, 12] + ([16, 20] if t else [])):
            for m in range(4 if t else 2):
                w = depth_input(s, d)
                ins.append((i, w)); ins.append((i, s.mutate(w)))
    lines, meta = [], []
    for i, w in ins:
        text, pos = laid(w); lines.append(line(i, 8192, True, text)); meta.append((i, w, text, pos))
    ans = Run(exe).all(lines)
    recs, src = [], []
    for (i, w, text, pos), x in zip(meta, ans):
        if x["r"] != "ok": rep.violation(f"the parser did not answer: {x}", grammar=grams[i].rust(), text=text); continue
        got, lost = at(x, pos, len(w))
        recs.append(dict(g=i + 1, sum=False, w=w, ok=x["ok"], tries=x["tries"], at=got)); src.append((i, text, x))
    deepest = max(len(w) for _, w in ins)

    # ---- recordings: flat inputs of many items.  Attempts, stack and memory must not grow faster than the input.
    sizes = [1000, 20000] + ([100000] if t else [])
    chosen = range(len(fl)) if t else sorted(set(rng.sample(range(len(fl)), 30)) | set(k for k, g in enumerate(fl) if g.nodes[g.startnode-1]["op"] in ("left", "right", "sep", "any", "punct") and len(g.nodes) <= 4))
    lines, meta = [], []
    for i in chosen:
        g = fl[i]
        for n in [8] + sizes + ([100000] if not t and len(g.nodes) <= 4 else []):
            w = big_input(g, rng, n)
            if w is None: break
            vs = [w]
            if n > 8:
                # something wrong in the last item, and in the middle
                cut = list(w)
                while cut and cut[-1] in ")]}": cut.pop()
                if g.nodes[g.startnode-1]["op"] in ("sep", "left", "right", "punct", "any"):
                    if w[-1] not in ")]}": vs += [w[:-1] + ["?"], w[:-1]]
                    h = len(w) // 2
                    if w[h] not in "()[]{}": vs.append(w[:h] + ["?"] + w[h + 1:])
            for v, w2 in enumerate(vs):
                # destroying a complete but unwanted chain is not part of parsing: give these runs a larger stack
                chain = any(N["op"] in ("left", "right") for N in g.nodes)
                lines.append(line(i, 1024 if v == 0 or not chain else 160 << 10, n <= 1000, laid(w2)[0])); meta.append((i, n, v, w2))
    ans = Run(exe, limit=60).all(lines)
    base = {}
    for (i, n, v, w), x in zip(meta, ans):
        if x["r"] != "ok":
            rep.violation(f"{n} items: the parser did not answer ({x}); stack of 1 MB" if v == 0 else f"{n} items: the parser did not answer ({x})", grammar=grams[i].rust(), items=n, beginning=" ".join(w[:20])); continue
        if v == 0 and not x["ok"]: raise ToolError(f"long input rejected: {grams[i].rust()} {' '.join(w[:20])}")
        if n == 8: base[i] = x["depth"]; continue
        per = max(k for _, _, k in x["at"]) if "at" in x else 0
        recs.append(dict(g=i + 1, sum=True, n=len(w), tries=x["tries"], per=per, depth=x["depth"], depth0=base[i], kb=x["bytes"] >> 10)); src.append((i, f"{n} items, variant {v}: " + " ".join(w[:20]), x))
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    for r in recs: r.setdefault("ok", True)
    # time: only a growth that no linear algorithm can show
    times = {}
    for (i, n, v, w), x in zip(meta, ans):
        if x["r"] == "ok": times[i, n, v] = (x["ms"], w)
    for (i, n, v), (ms, w) in times.items():
        if n < 20000 or ms < 6000: continue
        small = next((m for (j, k, u), (m, _) in times.items() if j == i and u == v and 8 < k < n), None)
        if small is None: continue
        k = min(k for (j, k, u) in times if j == i and u == v and k > 8)
        again = Run(exe, limit=120).all([line(i, 160 << 10, False, laid(w)[0])] * 2)
        if min(y.get("ms", 10**9) for y in again) > 6000 and ms > 6 * (n // k) * max(small, 20):
            rep.violation(f"time grows faster than the input: {small} ms for {k} items, {ms} ms for {n}", grammar=grams[i].rust(), beginning=" ".join(w[:20]))
    recs_j = jsonfile(dict(toks=toks_of(grams, [t for r in recs for t in r.get("w", [])]), grams=[g.spec() for g in grams], recs=recs, factor=FACTOR, slack=SLACK, kb=KB), "C26-tr.json")
    outs, stt = tlc("WorkTrace", dict(PEG_JSON=recs_j), xss="256m"); rep.states(stt)
    if len(outs) != len(recs): raise ToolError(f"TLC judged {len(outs)} of {len(recs)} recordings")
    for o in outs:
        if not o["ok"]:
            i, text, x = src[o["rec"] - 1]
            rep.violation("recorded costs rejected by the specification", grammar=grams[i].rust(), text=text[:400], allowed=o["want"], got=x)
    big = [r for r in recs if r["sum"]]
    rep.traces(len(recs))
    rep.cov.update(recordings_validated=len(recs), longest_nested_tokens=deepest, flat_runs=len(big), longest_flat_tokens=max([r["n"] for r in big] or [0]),
                   most_tries_per_token=round(max([r["tries"] / r["n"] for r in big] or [0]), 2), most_bytes_per_token=round(max([1024 * r["kb"] / r["n"] for r in big] or [0])),
                   most_extra_stack=max([r["depth"] - r["depth0"] for r in big] or [0]), slowest_ms=max([x.get("ms", 0) for x in ans] or [0]))
    for k in rng.sample(range(len(recs)), min(4, len(recs))):
        rep.sample(dict(direction="code->spec", text=src[k][1][:160], tries=recs[k]["tries"]))
    return rep
