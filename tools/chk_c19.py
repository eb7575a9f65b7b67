"""C19: the two-way value, decided with the Two specification."""
import random, itertools
from core import *
MAIN = open(os.path.join(HERE, "twolib.rs")).read()
def op(o, a=0): return dict(o=o, a=a)
def st(side, xs, h=0): return dict(side=side, xs=xs, h=h)
def enc(kind, s, ops): return "\t".join([kind, s["side"], ",".join(map(str, s["xs"])), str(s["h"]), ";".join(f"{o['o']}:{o['a']}" for o in ops)])

ITOPS = [op("next"), op("back"), op("flip")] + [op(o, k) for o in ("nth", "nthb") for k in (0, 1, 2)]
def fams():
    t = thorough(); LRs = "LR"
    it = [[], [1], [1, 2], [1, 2, 3], [1, 2, 3, 4], [1, 0, 2], [0, 1, 2], [1, 2, 0], [0], [1, 2, 3, 0, 4, 5]]
    return [dict(kind="val", starts=[st(s, [1]) for s in LRs], ops=[op(o) for o in ("flip", "map", "mapl", "mapr", "as_mut")], depth=4 + t),
            dict(kind="same", starts=[st(s, [1]) for s in LRs], ops=[op(o) for o in ("flip", "as_mut_t", "deref_mut", "mapl", "mapr")], depth=4 + t),
            dict(kind="opt", starts=[st(s, x) for s in LRs for x in ([], [1])], ops=[op(o) for o in ("flip", "map", "as_mut")], depth=4 + t),
            dict(kind="res", starts=[st(s, x) for s in LRs for x in ([], [1])], ops=[op(o) for o in ("flip", "map")], depth=4 + t),
            dict(kind="ext", starts=[st(s, x) for s in LRs for x in ([], [1], [1, 2])], ops=[op("flip")] + [op("extend", k) for k in (0, 1, 3)], depth=3 + t),
            dict(kind="iter", starts=[st(s, x, h) for s in LRs for x in it for h in (0, 1, 2)], ops=ITOPS, depth=3 + t),
            dict(kind="iter", starts=[st(s, list(range(1, 7))) for s in LRs], ops=[op("next"), op("back"), op("nth", 1), op("nthb", 1)], depth=5 + t),
            dict(kind="iter", starts=[st(s, x, h) for s in LRs for x in it for h in (0, 1)], ops=ITOPS[:3] + [op(o, k) for o in WAYS for k in (0, 1, 2)], depth=2 + t),
            # far items, and the items of long iterators
            dict(kind="iter", starts=[st(s, list(range(1, n + 1)), h) for s in LRs for n in ((40, 150, 600) if t else (40, 150)) for h in (0, 1, 2)], ops=[op(o, k) for o in ("nth", "nthb") for k in FAR], depth=2 - (not t))]
WAYS = ["find", "rfind", "fold", "rfold", "skip", "rskip"]
FAR = [1, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 39, 40, 41, 63, 64, 65, 99, 100, 127, 128, 129, 149, 150, 151]

def judge(o, a):
    if a["r"] != "ok": return f"no answer: {a}", len(o["hist"])
    steps = [dict(op=None, r=None, obs=o["obs"])] + o["hist"]
    for i, (h, s) in enumerate(zip(steps, a["steps"])):
        if i and h["op"]["o"] != "flip" and s["r"] != h["r"]: return f"answers {s['r']} where {h['r']} is prescribed", i
        for view, acc, v in s["see"]:
            if h["obs"][view] != v: return f"{acc} shows {v} where {h['obs'][view]} is prescribed", i
    return None

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 19)
    exe = build("chktwo", {"main.rs": MAIN})
    outs, stt = tlc("MCTwo", dict(TWO_JSON=jsonfile(dict(fams=fams()), "C19-mc.json"))); rep.states(stt)
    log(f"C19: TLC enumerated {len(outs)} histories, {stt['distinct']} states")
    lines = [enc(o["kind"], o["start"], [h["op"] for h in o["hist"]]) for o in outs]
    ans = Run(exe).all(lines)
    for o, l, a in zip(outs, lines, ans):
        why = judge(o, a)
        if why:
            w, i = why; name = o["hist"][i - 1]["op"]["o"] if 0 < i <= len(o["hist"]) else "construction"
            rep.violation(f"{o['kind']}: after {name}: {w}", history=l, step=i)
    if len(ans) < len(outs) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["histories_replayed"] = len(ans)
    for l in rng.sample(lines, 2): rep.sample(dict(direction="spec->code", history=l))
    if not Run(exe).all(["probe"])[0]["fused"]: rep.violation("a two-way value of fused iterators is not a fused iterator")
    # recordings
    kinds = {f["kind"]: f for f in fams()}
    recs, hs = [], []
    for _ in range(1200 if thorough() else 300):
        k = rng.choice(["iter"] * 4 + list(kinds))
        f = next(x for x in fams() if x["kind"] == k)
        s = rng.choice(f["starts"])
        if k == "iter": s = st(rng.choice("LR"), [(z == 0 or rng.random() * z > 1) * (i + 1) for z in [rng.choice([0, 0, 7, 40])] for i in range(rng.choice([3, 10, 30, 60, 130, 300]))], rng.choice([0, 0, 1, 2]))
        ops = []
        for _ in range(rng.choice([3, 10, 30])):
            o = dict(rng.choice(f["ops"] if k != "iter" or rng.random() < .8 else [op(o) for o in WAYS]))
            if o["o"] in ["nth", "nthb", "extend"] + WAYS: o["a"] = rng.choice([0, 1, 2, 3, 5, 9, 40, rng.randint(0, 140)])
            ops.append(o)
        hs.append((k, s, ops))
    lines = [enc(*h) for h in hs]
    ans = Run(exe).all(lines)
    idx = []
    for i, ((k, s, ops), a) in enumerate(zip(hs, ans)):
        if a["r"] != "ok" or len(a["steps"]) != len(ops) + 1:
            rep.violation(f"{k}: a history does not complete", history=lines[i], got=a); continue
        steps = [dict(op=o, r=x["r"], see=[[v, w] for v, _, w in x["see"]]) for o, x in zip(ops, a["steps"][1:])]
        for x in steps:     # flipping answers nothing
            if x["op"]["o"] == "flip": x["flip"] = True
        recs.append(dict(kind=k, start=s, steps=steps)); idx.append(i)
    outs, stt = tlc("TwoTrace", dict(TWO_JSON=jsonfile(dict(fams=[dict(kind="val", starts=[], ops=[], depth=0)], recs=recs), "C19-tr.json"))); rep.states(stt)
    if {o["rec"] for o in outs} != set(range(1, len(recs) + 1)): raise ToolError("TLC did not judge all recordings")
    for o in outs:
        if not o["ok"]:
            i = idx[o["rec"] - 1]
            rep.violation(f"{hs[i][0]}: recorded history rejected at step {o['at']}", history=lines[i], step=o["at"], allowed=o["want"], got=ans[i]["steps"][o["at"]])
    rep.traces(len(recs)); rep.cov["recordings_validated"] = len(recs)
    rep.sample(dict(direction="code->spec", history=lines[0][:200]))
    return rep
