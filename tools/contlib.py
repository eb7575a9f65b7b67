"""C17, C18: the container types, decided with the Cont specification."""
import random
from core import *

MAIN = open(os.path.join(HERE, "contlib.rs")).read()
def op(o, a=0, b=0): return dict(o=o, a=a, b=b)
def enc(ops): return ";".join(f"{o['o']}:{o['a']}:{o['b']}" for o in ops)

CT = dict(
    sep=[op("parse", k) for k in (1, 2, 3)] + [op("try", k) for k in (1, 2, 3)],
    punct=[op("new"), op("default")] + [op(c, k, t) for c in ("parse", "collectp", "syn") for k in (1, 2, 3) for t in (0, 1)] + [op(c, 0) for c in ("parse", "collectp", "syn")] + [op("collect", k) for k in range(4)],
    any=[op("new"), op("default")] + [op(c, k) for c in ("parse", "vec", "collect") for k in range(4)],
    maybe=[op("new"), op("default"), op("pair"), op("val")] + [op(c, k) for c in ("parse", "optpair", "opt") for k in (0, 1)],
    group=[op(c, k) for c in ("parse", "new", "from", "parts", "default") for k in range(3)])
OPS = dict(
    sep=[op("push"), op("pushv")] + [op("ins", i) for i in (0, 1, 2, 3)] + [op("extv", k) for k in (0, 1, 2)] + [op("extp", k) for k in (0, 1, 2)]
        + [op("first_mut"), op("last_mut"), op("iter_mut"), op("for_mut"), op("pairs_mut")] + [op("idx_mut", i) for i in (0, 1, 3)]
        + [op("via", e) for e in range(5)] + [op("refirst"), op("relast"), op("repairs")],
    punct=[op("push"), op("ppush"), op("pop"), op("ppop")] + [op("ins", i) for i in (0, 1, 2)] + [op("extv", k) for k in (0, 1, 2)]
        + [op("extp", k, t) for k in (1, 2) for t in (0, 1)] + [op("idx_mut", i) for i in (0, 1, 2)] + [op("iter_mut"), op("for_mut"), op("pairs_mut")]
        + [op("resyn"), op("reinto"), op("repairs"), op("recollect"), op("clear_mut"), op("clear_asmut"), op("clear_borrow")],
    any=[op("push"), op("pop")] + [op("ins", i) for i in (0, 1, 2)] + [op("extv", k) for k in (0, 1, 2)] + [op("idx_mut", i) for i in (0, 1, 2)]
        + [op("get_mut", i) for i in (0, 1, 2)] + [op("rng_mut", a, b) for a, b in ((0, 0), (0, 1), (1, 3), (2, 1))] + [op("getr_mut", a, b) for a, b in ((0, 2), (1, 1), (2, 1))]
        + [op("iter_mut"), op("for_mut"), op("rev_slice"), op("rev_vec"), op("rev_bslice"), op("rev_bvec"), op("rev_deref"), op("revec"), op("reinto"), op("recollect")],
    maybe=[op(o) for o in ("prefix_mut", "prefix_iter_mut", "as_mut", "iter_mut", "for_mut", "parts_mut", "parts_iter_mut", "deref_mut", "take", "put", "reparts", "reinner")],
    group=[op("deref_mut"), op("as_mut"), op("reparts")])
CORE = dict(sep=[op("push"), op("pushv"), op("ins", 0), op("ins", 1), op("extv", 2), op("extp", 2), op("pairs_mut"), op("via", 0), op("via", 3), op("relast")],
            punct=[op("push"), op("ppush"), op("pop"), op("ppop"), op("ins", 1), op("extv", 2), op("extp", 2, 0), op("extp", 1, 1), op("repairs"), op("pairs_mut")],
            any=[op("push"), op("pop"), op("ins", 1), op("extv", 2), op("rng_mut", 1, 3), op("rev_bslice"), op("recollect")])

def fams(pid):
    t = thorough()
    if pid == "C17":
        return [dict(kind="sep", ctors=CT["sep"], ops=OPS["sep"], depth=2 + t),
                dict(kind="sep", ctors=[op("parse", 1), op("try", 2)], ops=CORE["sep"], depth=4 + t)]
    return [dict(kind="punct", ctors=CT["punct"], ops=OPS["punct"], depth=2),
            dict(kind="any", ctors=CT["any"], ops=OPS["any"], depth=2),
            dict(kind="maybe", ctors=CT["maybe"], ops=OPS["maybe"], depth=3 + t),
            dict(kind="group", ctors=CT["group"], ops=OPS["group"], depth=3 + t),
            dict(kind="punct", ctors=[op("new"), op("parse", 2, 1)], ops=CORE["punct"], depth=3 + 2 * t),
            dict(kind="any", ctors=[op("new"), op("vec", 3)], ops=CORE["any"], depth=3 + 2 * t)]

def judge(hist, a):
    """first step at which the real container departs from the specification, or None"""
    if a["r"] != "ok": return f"no answer: {a}", len(hist)
    for i, h in enumerate(hist):
        if i >= len(a["steps"]): return "the operation did not complete", i
        s = a["steps"][i]
        if s["r"] != h["r"]: return f"result {s['r']} where {h['r']} is prescribed", i
        if s.get("dead"): return "an accessor panics", i
        for view, acc, v in s["see"]:
            if h["obs"][view] != v: return f"{acc} shows {v} where {h['obs'][view]} is prescribed", i
    return None

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + int(pid[1:]))
    exe = build("chkcont", {"main.rs": MAIN})
    spec = jsonfile(dict(fams=fams(pid)), f"{pid}-mc.json")
    outs, st = tlc("MCCont", dict(CONT_JSON=spec)); rep.states(st)
    log(f"{pid}: TLC enumerated {len(outs)} histories, {st['distinct']} states")
    ans = Run(exe).all([o["kind"] + "\t" + enc([h["op"] for h in o["hist"]]) for o in outs])
    for o, a in zip(outs, ans):
        why = judge(o["hist"], a)
        if why:
            w, i = why
            rep.violation(f"{o['kind']}: after {o['hist'][min(i, len(o['hist']) - 1)]['op']['o']}: {w}", kind=o["kind"],
                          history=enc([h["op"] for h in o["hist"]]), step=i, expected=o["hist"][i] if i < len(o["hist"]) else None,
                          got=a["steps"][i] if i < len(a.get("steps", [])) else a)
    if len(ans) < len(outs) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["histories_replayed"] = len(ans)
    for o in rng.sample(outs, 2): rep.sample(dict(direction="spec->code", kind=o["kind"], history=enc([h["op"] for h in o["hist"]])))
    if pid == "C17":
        # nothing hands out the inner list mutably, and nothing makes one without checking
        a = Run(exe).all(["probe"])[0]
        for k, v in a.items():
            if k != "r" and v: rep.violation(f"separated lists give unchecked access to the list inside: {k}")
    recordings(rep, pid, exe, rng)
    return rep

def history(rng, kind, n):
    """a random history of n operations; positions are chosen a little beyond the length now and then"""
    c = rng.choice(CT[kind])
    if kind in ("sep", "punct", "any") and c["a"] and rng.random() < .5: c = dict(c, a=rng.choice([rng.randint(1, 12), rng.randint(1, 12), rng.randint(1, 12), 40]) if n < 40 else rng.choice([3, 9, 35]) if n == 40 else rng.choice([70, 130, 300]))
    h, L = [c], c["a"]
    while len(h) <= n:
        o = dict(rng.choice(OPS[kind] + ([op("extvx"), op("extpx")] if kind == "sep" else [op("extp", 0)] if kind == "punct" else [])))
        if o["o"] in ("ins", "idx_mut", "get_mut"): o["a"] = rng.choice([0, L, L - 1 if L else 0, rng.randint(0, L + 1)])
        elif o["o"] in ("extv", "extp", "extvx", "extpx"):
            o["a"] = rng.choice([0, 1, 2, 3, 7, 7, 25] if L < 60 else [0, 1, 2])
            if o["o"] == "extp" and kind == "punct" and o["a"] == 0: o["b"] = 0
        elif o["o"] in ("rng_mut", "getr_mut"): o["a"], o["b"] = rng.randint(0, L), rng.randint(0, L + 1)
        elif o["o"] == "via" and o["a"] == 4 and rng.random() < .5: o["a"] = 0
        # (only a guide for choosing positions)
        if o["o"] in ("push", "pushv", "ins"): L += 1
        elif o["o"] in ("extv", "extp"): L += o["a"]
        elif o["o"] == "pop" and L: L -= 1
        elif o["o"].startswith("clear"): L = 0
        h.append(o)
    return h

def recordings(rep, pid, exe, rng):
    kinds = ["sep"] if pid == "C17" else ["punct", "any", "maybe", "group"]
    N = 1500 if thorough() else 250
    hs = [(rng.choice(kinds), rng.choice([3, 8, 20, 40])) for _ in range(N)]
    hs += [(rng.choice(kinds), 41) for _ in range(6)]        # lists which are long from the start
    hs = [(k, history(rng, k, n)[: 8 if n == 41 else None]) for k, n in hs]
    ans = Run(exe).all([k + "\t" + enc(h) for k, h in hs])
    recs, idx = [], []
    for i, ((k, h), a) in enumerate(zip(hs, ans)):
        if a["r"] != "ok" or len(a["steps"]) != len(h) or any(s.get("dead") for s in a["steps"]):
            rep.violation(f"{k}: a history does not complete", history=enc(h), got=a if a["r"] != "ok" else a["steps"][-1]); continue
        steps = []
        for o, s in zip(h, a["steps"]):
            see = []
            for view, acc, v in s["see"]:
                if [view, v] not in see: see.append([view, v])
            steps.append(dict(op=o, r=s["r"], see=see))
        recs.append(dict(kind=k, steps=steps)); idx.append(i)
    if len(ans) < len(hs) and not rep.viol: raise ToolError("incomplete run")
    spec = jsonfile(dict(fams=[dict(kind="sep", ctors=[], ops=[], depth=0)], recs=recs), f"{pid}-tr.json")
    outs, st = tlc("ContTrace", dict(CONT_JSON=spec)); rep.states(st)
    good = {o["rec"] for o in outs if o["ok"]}
    if {o["rec"] for o in outs} != set(range(1, len(recs) + 1)): raise ToolError("TLC did not judge all recordings")
    for o in outs:
        if o["rec"] not in good:
            i = idx[o["rec"] - 1]
            rep.violation(f"{hs[i][0]}: recorded history rejected at step {o['at']}: {hs[i][1][o['at'] - 1]['o']}", history=enc(hs[i][1]), step=o["at"],
                          allowed=o["want"], got=ans[i]["steps"][o["at"] - 1])
    rep.traces(len(recs)); rep.cov["recordings_validated"] = len(recs)
    rep.cov["longest_recorded_history"] = max(len(h) for _, h in hs)
    rep.sample(dict(direction="code->spec", kind=hs[0][0], history=enc(hs[0][1])[:200]))
