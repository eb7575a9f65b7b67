"""C01..C12: the parser properties, decided with the Peg specification."""
import random
from core import *
from gram import *
from peg import *
import catalog
from effort import fit

#            projection                                   mode  families' random grammars
SEES = dict(
    C01=See(ok=True, v=True), C02=See(ok=True, v=True), C03=See(ok=True, at=True), C04=See(),
    C05=See(ok=True, v=True), C06=See(ok=True, v=True), C07=See(ok=True, v=True), C08=See(ok=True, v=True),
    C09=See(ok=True, v=True), C10=See(at=True, msg=True, ch=True), C11=See(at=True, msg=True, ch=True),
    C12=See(ok=True, v=True, at=True, msg=True))
MODE = dict(C02="dp", C04="dpr", C09="dpx", C12="dp")

def order(w, a):
    """tokens printed = source tokens in order (spelling, and which punctuation is joined)"""
    got = [t[0] for t in a["p"]]
    # the last character of an operator is printed alone; a lone operator followed by another
    # character may have been joint in the source without forming one operator
    def key(ts): return [t[0] if len(t) == 2 and t.endswith("~") else t for t in ts]
    if key(got) != key(w): return f"printed tokens are not the source tokens: {' '.join(got)}"
    return None

def check_print(o, exp, a, got, text, pos, pl, loc):
    if exp["ok"] and got["ok"]: return order(o["w"], a)
def check_print_r(gi, w, a, got, text, pos, pl, loc):
    if got["ok"]: return order(w, a)

def check_rt(o, exp, a, got, text, pos, pl, loc): return rt(o["w"], a, got)
def check_rt_r(gi, w, a, got, text, pos, pl, loc): return rt(w, a, got)
def rt(w, a, got):
    if not got["ok"]: return None
    m = order(w, a)
    if m: return m
    for ok, how in zip(a["rt"], ("its tokens", "its text", "its alternate text")):
        if not ok: return f"parsing {how} again does not give an equal node"

def check_span(o, exp, a, got, text, pos, pl, loc): return span(o["w"], a, got, pos, loc)
def check_span_r(gi, w, a, got, text, pos, pl, loc): return span(w, a, got, pos, loc)
def span(w, a, got, pos, loc):
    if not got["ok"]: return None
    m = order(w, a)
    if m: return m
    if loc and w and (tuple(a["x"][:2]), tuple(a["x"][2:])) != (pos[0][0], pos[-1][1]):
        return f"node located at {a['x']} instead of {pos[0][0]}..{pos[-1][1]}"
    if loc:
        for k, (t, p) in enumerate(zip(a["p"], pos)):
            # the two tokens of a signed literal may each carry the location of the whole
            s = {p[0]} | ({pos[k-1][0]} if k and w[k-1] == "-" and w[k][0].isdigit() else set())
            e = {p[1]} | ({pos[k+1][1]} if w[k] == "-" and k + 1 < len(w) and w[k+1][0].isdigit() else set())
            if (t[1], t[2]) not in s or (t[3], t[4]) not in e: return f"printed token {t} is not at its source place {p[:2]}"

CHK = dict(C02=(check_print, check_print_r), C04=(check_rt, check_rt_r), C09=(check_span, check_span_r), C12=(check_print, check_print_r))

# how recorded runs are made: repetitions per property
def long_inputs(pid, grams, rng, n, deep):
    """n larger inputs, valid and damaged, over all grammars"""
    out = []
    ss = [Sampler(g, rng, big=4) for g in grams]
    while len(out) < n:
        gi = rng.randrange(len(grams)); s = ss[gi]
        w = s.sentence(rng.choice([3, 5, 7, 9]), limit=deep)
        if len(w) > deep: continue
        w = w if rng.random() < .45 else s.mutate(w)
        if fit(grams[gi], w): out.append((gi, w))
    return out

def chains(pid, grams, rng, sizes):
    """flat inputs of many items: lists, repetitions and operator chains at their outermost use"""
    out = []
    for gi, g in enumerate(grams):
        if not any(n["op"] in ("any", "punct", "sep", "left", "right") for n in g.nodes): continue
        for n in sizes:
            s = Sampler(g, rng, rep=n)
            # only the outermost repetition is long
            w = outer(s, g.startnode, n)
            if w is None or len(w) < n or len(w) > 3 * n + 60: continue
            out.append((gi, w)); out.append((gi, s.mutate(w)))
            # a long run that ends within what would have been its next piece
            for k in ((1, 2, 3) if len(g.nodes) < 12 or thorough() else (rng.choice((1, 2)),)):
                w = outer(s, g.startnode, n, k)
                if w and len(w) <= 3 * n + 60: out.append((gi, w))
    return [(gi, w) for gi, w in out if fit(grams[gi], w)]

def exact(grams, rng, sizes):
    """small grammars: inputs of exactly so many items, with and without a piece of one more"""
    out = []
    for gi, g in enumerate(grams):
        if len(g.nodes) > 12: continue
        s = Sampler(g, rng)
        for n in sizes:
            for k in (0, 1, 2):
                w = outer(s, g.startnode, n, k)
                if w and n <= len(w) <= 3 * n + 60 and fit(g, w): out.append((gi, w))
    return out

def outer(s, k, n, part=0):
    """a sentence whose first repetition on the way down has n items (and a part of one more), all others few"""
    out = []; used = [False]
    inner = Sampler(s.g, s.rng, big=1)
    def go(k, depth):
        N = s.g.nodes[k-1]; o = N["op"]; a = N["a"]
        if o in ("any", "punct", "sep", "left", "right") and not used[0]:
            used[0] = True
            if o in ("sep", "left", "right", "punct"): inner.gen(a[0], 3, out)
            for _ in range(n - (o != "any")):
                if o == "any": inner.gen(a[0], 3, out)
                else: inner.gen(a[1], 3, out); inner.gen(a[0], 3, out)
            if part:
                more = []
                for c in (a if o == "any" else (a[1], a[0])): inner.gen(c, 3, more)
                more = [t for t in more if t not in "()[]{}"]
                out.extend(more[:part])
        elif o == "seq":
            for c in a: go(c, depth - 1)
        elif o == "group":
            out.append(N["s"]); go(a[0], depth - 1); out.append({"(": ")", "[": "]", "{": "}"}[N["s"]])
        elif o in ("alt", "either") and a and depth > 0:
            ok = [c for c in a if s.mind[c] < depth] or [min(a, key=lambda c: s.mind[c])]
            go(s.rng.choice(ok), depth - 1)
        elif o == "maybe" and depth > 0 and s.rng.random() < .5:
            go(a[0], depth - 1); go(a[1], depth - 1)
        else: inner.gen(k, depth, out)
    go(k, 8)
    return out if used[0] else None

def run(pid):
    rep = Report(pid)
    rng = random.Random(SEED * 1000 + int(pid[1:]))
    see, mode = SEES[pid], MODE.get(pid, "d")
    chk = CHK.get(pid, (None, None))
    fam = getattr(catalog, pid)() + catalog.STRAY(pid) + catalog.OPERATORS(pid)
    nr = 40 if thorough() else 10
    unl = pid == "C10"
    for _ in range(nr):
        g = catalog.random_gram(rng, catalog.OPS[pid], unloc=unl)
        if g:
            g.max = g.mmax = 3 if not thorough() else 4
            fam.append(g)
    if thorough():
        for g in fam[:-nr]: g.max += 1; g.mmax = min(g.max, g.mmax + 1)
    fam += catalog.WIDE(unl)
    exe = build("chk" + pid.lower(), main_rs(fam))
    log(f"{pid}: harness built with {len(fam)} grammars")
    exhaustive(rep, fam, exe, see, rng, mode=mode, check=chk[0], layouts=1)
    n = 4000 if thorough() else 500
    inputs = long_inputs(pid, fam, rng, n, 60) + long_inputs(pid, fam, rng, n // 10, 400)
    inputs += chains(pid, fam, rng, [64, rng.choice([260, 300, 520])] if not thorough() else [64, 260, 520, 1000])
    if not thorough(): inputs += rng.sample(x := chains(pid, fam, rng, [1000]), min(10 if pid in ("C06", "C07", "C08") else 4, len(x)))
    if pid in ("C06", "C07", "C08"):
        xs = exact(fam, rng, [16, 32, 128, 256] + ([255, 257, 512, 1024] if thorough() else []))
        inputs += [x for x in xs if len(x[1]) < 1500] if thorough() else [x for x in xs if len(x[1]) > 200][::2] + rng.sample(xs, min(30, len(xs)))
    for k in range(60 if thorough() else 16):
        n = [40, 120, 12, 70][k % 4]
        inputs += [(len(fam) - 1, catalog.deep_input(rng, n, c, False)) for c in rng.sample([(), (";",), ("+",), ("a", "a"), ("(", ";", ")")], 2)]
        w = catalog.deep_input(rng, n)
        inputs.append((len(fam) - 1, w)); inputs.append((len(fam) - 1, Sampler(fam[-1], rng).mutate(w)))
    recorded(rep, fam, exe, see, rng, inputs, mode=mode, check=chk[1], unlocated=.3 if unl else 0)
    if pid in ("C06", "C07", "C08"):
        import flat
        flat.run(rep, pid, rng)
    rep.cov["grammars"] = len(fam)
    rep.cov["random_grammars"] = nr
    return rep
