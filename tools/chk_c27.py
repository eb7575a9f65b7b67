"""C27: the Debug text of nodes, decided with the Dbg specification."""
import random
from core import *
MAIN = open(os.path.join(HERE, "dbglib.rs")).read()

def o(disp=False, alt=False, w=-1, p=-1, fill=" ", al="-"): return dict(disp=disp, alt=alt, w=w, p=p, fill=fill, al=al)
# the options of `debug` and `show` in dbglib.rs, in this order
OPTS = [o(), o(alt=True), o(w=9), o(alt=True, p=2), o(w=9, p=3, fill="*", al=">"), o(alt=True, w=7, al="^"), o(w=8), o(alt=True, w=4, p=1, al="<"),
        o(disp=True), o(disp=True, alt=True), o(disp=True, w=9, p=3, fill="*", al="^"), o(disp=True, w=8, al=">")]
DEBUGS = 8
def nd(k, t="", *xs): return dict(k=k, t=t, xs=list(xs))
LEAVES = ["a", "b", "c", ",", ";", "x", "r#fn", "été", "#bool", "#byte", "#int", "#uint", "#float", "#char", "#str", "#bytes"]
a, b, c, cm, sc = (nd("leaf", x) for x in "abc,;")
def alt(*ts): return nd("alt", "", *ts)
def L(x): return nd("same", "L", x)
def R(x): return nd("same", "R", x)
W, S = alt(a, b), alt(cm, sc)
YES, FN, UNDER = nd("word", "yes"), nd("word", "fn"), nd("word", "_")
ID = alt(*(nd("same", "ident", nd("leaf", x)) for x in ("x", "r#fn", "été")))
LIT = alt(*(nd("same", "lit", nd("leaf", x)) for x in LEAVES if x[0] == "#"))
LIT2 = nd("same", "lit", nd("leaf", "#int"))
OP, EMPTY, MORE = alt(L(cm), R(YES)), nd("unit", "Empty"), nd("unit", "NotEof")
WL = alt(L(a), R(LIT2))
def any_(t): return nd("any", "", t)
def punct(t, p): return nd("punct", "", t, p)
def sep(t, p): return nd("sep", "", t, p)
def maybe(p, t): return nd("maybe", "", p, t)
def left(p, t): return nd("left", "", t, p)
def right(p, t): return nd("right", "", t, p)

# name in dbglib.rs, type, bound on lengths, does it have a Display that passes the options on
TYPES = [("yes", YES, 1, 1), ("fn", FN, 1, 1), ("under", UNDER, 1, 1), ("empty", EMPTY, 1, 1), ("eof", nd("unit", "Eof"), 1, 1), ("noteof", nd("unit", "NotEof"), 1, 1), ("keywords", nd("unit", "Keywords"), 1, 0),
         ("ident", ID, 1, 1), ("lit", LIT, 1, 1), ("either", alt(L(a), R(FN)), 1, 1), ("either2", alt(L(alt(L(YES), R(LIT))), R(ID)), 1, 1),
         ("any", any_(W), 2, 0), ("many", nd("many", "", W, MORE), 2, 0), ("punct", punct(W, S), 2, 0), ("sep", sep(W, S), 2, 0), ("maybe", maybe(YES, W), 1, 0), ("flag", maybe(FN, EMPTY), 1, 0),
         ("left", left(S, W), 2, 0), ("right", right(S, W), 2, 0), ("left-op", left(OP, WL), 2, 0), ("right-op", right(OP, WL), 2, 0),
         ("sep-maybe", sep(maybe(YES, a), cm), 2, 0), ("punct-op", punct(alt(L(a), R(ID)), OP), 1, 0), ("sep-any", sep(any_(a), OP), 2, 0), ("any-any", any_(any_(a)), 2, 0),
         ("maybe-left", maybe(YES, left(S, a)), 2, 0), ("left-any", left(cm, any_(W)), 1, 0), ("right-sep", right(OP, sep(a, cm)), 2, 0), ("left-right", left(FN, right(cm, W)), 1, 0),
         ("left-opt", left(maybe(FN, nd("many", "", a, MORE)), a), 1, 0), ("right-opt", right(maybe(FN, nd("many", "", a, MORE)), a), 1, 0),
         ("maybe-maybe", maybe(maybe(YES, a), maybe(S, b)), 1, 0), ("many-sep", nd("many", "", sep(a, S), MORE), 2, 0),
         ("paren", sep(W, cm), 2, 0), ("bracket", sep(W, cm), 2, 0), ("brace", sep(W, cm), 2, 0)]

def enc(n): return " ".join([f"{n['k']}\x01{n['t']}\x01{len(n['xs'])}"] + [enc(x) for x in n["xs"]])
def rnd(rng, ty, m):
    """a random value of a type, with lists of up to m items"""
    k, xs = ty["k"], ty["xs"]
    v = lambda i: rnd(rng, xs[i], max(1, min(m // 3, 3)))
    if k in ("leaf", "word", "unit"): return ty
    if k == "same": return nd("same", ty["t"], v(0))
    if k == "alt": return rnd(rng, rng.choice(xs), m)
    if k == "any": return nd("list", "", *(v(0) for _ in range(rng.randint(m * (m > 12), m))))
    if k == "maybe": return rng.choice([nd("none"), nd("some", "", v(0), v(1)), nd("some", "", v(0), v(1))])
    if k in ("punct", "many", "sep"):
        n = rng.randint(m if m > 12 else k == "sep", m); l = []
        for i in range(n): l += [v(0), v(1)]
        if l and (k == "sep" or rng.random() < 0.5): l.pop()
        return nd("list", "", *l)
    x = v(0)
    for _ in range(rng.choice([34, 60, 66, 100]) if m > 12 else rng.randint(0, m)): x = nd("chain", "l", x, v(1), v(0)) if k == "left" else nd("chain", "r", v(0), v(1), x)
    return x

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 27); t = thorough()
    exe = build("chkdbg", {"main.rs": MAIN})
    # what the leaves show
    q = [(l, i) for l in LEAVES for i in range(1, len(OPTS) + 1)]
    ans = Run(exe).all([f"leaf\tleaf\x01{l}\x010\t{i}" for l, i in q])
    if any(x.get("r") != "ok" for x in ans): raise ToolError("a leaf cannot be shown")
    leaf = {}
    for (l, i), x in zip(q, ans): leaf.setdefault(l, []).append(x["out"].split("\n"))
    cases = []
    for j in range(3000 if t else 600):
        n, ty, m, d = next(x for x in TYPES if x[0] == LONG[j // 20 % len(LONG)]) if j % 20 == 0 else rng.choice(TYPES)
        cases.append(dict(type=n, node=rnd(rng, ty, 150 if j % 20 == 0 else rng.choice([1, 2, 4, 6, 12])), opt=rng.randint(1, len(OPTS) if d else DEBUGS)))
    types = [dict(ty=ty, m=m + (1 if t and n in DEEPER else 0), disp=bool(d)) for n, ty, m, d in TYPES]
    outs, st = tlc("MCDbg", dict(DBG_JSON=jsonfile(dict(leaf=leaf, opts=OPTS, debugs=DEBUGS, types=types, cases=cases), "C27-mc.json")), xss="512m"); rep.states(st)
    name = lambda o: TYPES[o["i"] - 1][0] if o["i"] > 0 else cases[-o["i"] - 1]["type"]
    lines = [f"{name(o)}\t{enc(o['node'])}\t{o['opt']}" for o in outs]
    log(f"C27: TLC wrote {len(outs)} texts, {st['distinct']} states")
    ans = Run(exe).all(lines)
    for o, l, x in zip(outs, lines, ans):
        want = "\n".join(o["out"])
        if x.get("r") != "ok": rep.violation(f"{name(o)}: no text: {x}", node=o["node"], options=OPTS[o["opt"] - 1])
        elif x["out"] != want: rep.violation(f"{name(o)}: the text is not that of the content", node=o["node"], options=OPTS[o["opt"] - 1], expected=want, got=x["out"])
    if len(ans) < len(outs) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov.update(texts=len(ans), types=len(TYPES), options=len(OPTS), random_nodes=len(cases))
    for i in rng.sample(range(len(outs)), 3): rep.sample(dict(node=lines[i].replace("\x01", "/"), text=ans[i].get("out")))
    return rep
LONG = ["any", "many", "punct", "sep", "left", "right", "left-op", "right-op"]
DEEPER = {"any", "punct", "sep", "left", "right", "left-op", "sep-any", "many-sep", "maybe-left"}
