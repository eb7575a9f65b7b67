"""Conformance of the real parser with the Peg specification, in both directions."""
import json, os, random, re
from core import *
from gram import *

def toks_of(grams, extra=()):
    names = set(extra) | set("()[]{}")
    for g in grams: names |= set(g.alpha)
    return {n: tokinfo(n) for n in names}

PRE = re.compile(r"error parsing (\S+), caused by:\n")
def split_message(m):
    ch = []
    while True:
        k = PRE.match(m)
        if not k: return ch, m
        ch.append(k.group(1)); m = m[k.end():]

class Places:
    """translation of source positions to token indices"""
    def __init__(self, pos):
        self.s = {p[0]: i + 1 for i, p in enumerate(pos)}
        self.e = {p[1]: i + 1 for i, p in enumerate(pos)}
    def rng(self, q):
        a, b = (q[0], q[1]), (q[2], q[3])
        if a == b == (1, 0): return (0, 0)
        return (self.s.get(a, -1), self.e.get(b, -1))

def value(d, pl):
    """JSON dump of the harness -> value of the specification"""
    stack = []
    def go(d):
        if d[0] == "tok":
            i, j = pl.rng(d[1:5]) if pl else (0, 0)
            return dict(k="tok", i=i, j=j, c=[])
        if d[0] == "group":
            i, j = pl.rng(d[1:5]) if pl else (0, 0)
            return dict(k="group", i=i, j=j, c=[go(d[5])])
        return dict(k=d[0], i=0, j=0, c=[go(x) for x in d[1]])
    return go(d)

def strip(v):
    return dict(k=v["k"], i=0, j=0, c=[strip(x) for x in v["c"]])

def flatten(v):
    out = []
    def go(v):
        out.append(dict(k=v["k"], i=v["i"], j=v["j"], n=len(v["c"])))
        for x in v["c"]: go(x)
    go(v)
    return out

VNONE = dict(k="none", i=0, j=0, c=[]); NOER = dict(i=0, j=0, msg="", ch=[])
def outcome(ans, pl, loc=True):
    """answer of the harness -> outcome of the specification"""
    if ans["r"] == "ok":
        return dict(ok=True, v=value(ans["d"], pl if loc else None), er=NOER)
    if ans["r"] == "err":
        ch, msg = split_message(ans["m"])
        i, j = pl.rng(ans["s"])
        return dict(ok=False, v=VNONE, er=dict(i=i, j=j, msg=msg, ch=ch))
    return dict(ok=None, why=ans)

# ---------------------------------------------------------------- projections
class See:
    """what a property looks at"""
    def __init__(self, ok=False, v=False, at=False, msg=False, ch=False):
        self.ok, self.v, self.at, self.msg, self.ch = ok, v, at, msg, ch

def differs(see, exp, got, loc=True):
    if got["ok"] is None: return f"the parser did not answer: {got['why']}"
    if see.ok and exp["ok"] != got["ok"]:
        return "accepted, but must be rejected" if got["ok"] else "rejected, but must be accepted"
    if exp["ok"] and got["ok"]:
        if see.v and (exp["v"] if loc else strip(exp["v"])) != got["v"]: return "wrong value"
    elif not exp["ok"] and not got["ok"]:
        a, b = exp["er"], got["er"]
        if see.at and (a["i"], a["j"]) != (b["i"], b["j"]): return "wrong error location"
        if see.msg and a["msg"] != b["msg"]: return "wrong error message"
        if see.ch and a["ch"] != b["ch"]: return "wrong production path in the error"
    return None

# ---------------------------------------------------------------- harness
def main_rs(grams, derives=None, extra=""):
    files = {}
    main = ["#![allow(dead_code, unused_imports, non_snake_case, non_camel_case_types)]"]
    arms = []
    for i, g in enumerate(grams):
        files[f"g{i}.rs"] = "#![allow(dead_code, unused_imports, non_snake_case)]\n" + (g.rust(derives) if derives else g.rust())
        main.append(f"mod g{i};")
        arms.append(f"{i} => run::<g{i}::Start>(f[1], &unhex(f[2])),")
    main.append("use harness::*;\n" + extra)
    main.append("fn dispatch(f: &[&str]) -> String { match f[0].parse::<usize>().unwrap() { " + "\n".join(arms) + " _ => unreachable!() } }")
    main.append("fn main() { serve(dispatch) }")
    files["main.rs"] = "\n".join(main)
    return files

def vec(g, mode, text): return f"{g}\t{mode}\t{text.encode().hex()}"

# ---------------------------------------------------------------- sentences
# tokens that no grammar has to know about
WILD = [",", ";", ".", ":", "=", "+", "-", "*", "?", "!", "#", "&", "|", "@", "$", "<", ">", "a", "x9", "_", "fn", "self", "r#a",
        "1", "2.5", '"s"', "'c'", "b'c'", 'b"s"', "true"]

class Sampler:
    """random sentences of a grammar, and mutations of them"""
    def __init__(self, gram, rng, big=3, rep=None):
        self.g, self.rng, self.big, self.rep = gram, rng, big, rep
        nodes = gram.nodes
        INF = 10**6
        self.mind = [INF] * (len(nodes) + 1)   # minimal depth to finish
        ch = True
        while ch:
            ch = False
            for k, N in enumerate(nodes, 1):
                c = [self.mind[x] for x in N["a"]]
                o = N["op"]
                if o in ("alt", "either"): v = 1 + min(c, default=INF)
                elif o in ("maybe", "any", "punct"): v = 1
                elif o in ("sep", "left", "right"): v = 1 + c[0]
                else: v = 1 + max(c, default=0)
                if v < self.mind[k]: self.mind[k] = v; ch = True
        self.words = [t for t in gram.alpha if tokinfo(t)["k"] in ("ident", "rkw")]
        self.alpha = [t for t in gram.alpha if t not in "()[]{}"] or ["a"]

    def tok(self, N):
        r = self.rng; s = N["s"]
        def pick(f):
            c = [t for t in self.g.alpha if f(tokinfo(t))]
            return [r.choice(c)] if c else []
        if s == "punct": return ptoks("".join(N["f"]))
        if s in ("kw", "rkw"): return [N["f"][0]]
        if s == "ident": return pick(lambda t: t["k"] == "ident") or ["x"]
        if s in ("word", "cident"): return pick(lambda t: t["k"] in ("ident", "rkw") and t["c"] not in N["f"]) or ["x"]
        kinds = {"LitInt": ["int"], "LitUint": ["int"], "LitFloat": ["float"], "LitStr": ["str"], "LitChar": ["char"],
                 "LitByte": ["byte"], "LitByteStr": ["bstr"], "Lit": ["int", "float", "str", "char", "byte", "bstr"]}
        if s == "LitBool": return [r.choice(["true", "false"])]
        l = pick(lambda t: t["l"] in kinds[s] and t["k"] == "lit") or ["1"]
        if s in ("LitInt", "Lit") and tokinfo(l[0])["l"] in ("int", "float") and "-" in self.g.alpha and r.random() < .2: l = ["-"] + l
        return l

    def reps(self):
        if self.rep is not None: return self.rep
        r = self.rng; x = r.random()
        if x < .25: return 0
        if x < .8: return r.randint(1, self.big)
        return r.randint(1, self.big * 4)

    def gen(self, k, depth, out, limit=4000):
        N = self.g.nodes[k-1]; o = N["op"]; a = N["a"]; r = self.rng
        if len(out) > limit: depth = 0
        if o == "tok": out += self.tok(N)
        elif o == "seq":
            for c in a: self.gen(c, depth - 1, out, limit)
        elif o in ("alt", "either"):
            if not a: return
            ok = [c for c in a if self.mind[c] < depth]
            c = r.choice(ok) if ok else min(a, key=lambda c: self.mind[c])
            self.gen(c, depth - 1, out, limit)
        elif o == "maybe":
            if depth > 0 and r.random() < .6:
                for c in a: self.gen(c, depth - 1, out, limit)
        elif o == "any":
            for _ in range(self.reps() if depth > 0 else 0): self.gen(a[0], depth - 1, out, limit)
        elif o == "punct":
            n = self.reps() if depth > 0 else 0
            for x in range(n):
                self.gen(a[0], depth - 1, out, limit)
                if x + 1 < n or r.random() < .4: self.gen(a[1], depth - 1, out, limit)
        elif o in ("sep", "left", "right"):
            self.gen(a[0], depth - 1, out, limit)
            for x in range(self.reps() if depth > 0 else 0):
                self.gen(a[1], depth - 1, out, limit); self.gen(a[0], depth - 1, out, limit)
        elif o == "group":
            out.append(N["s"]); self.gen(a[0], depth - 1, out, limit); out.append({"(": ")", "[": "]", "{": "}"}[N["s"]])

    def sentence(self, depth, limit=4000):
        out = []
        self.gen(self.g.startnode, depth, out, limit)
        return out

    def mutate(self, w):
        r = self.rng; w = list(w)
        for _ in range(r.choice([1, 1, 1, 2])):
            plain = [i for i, t in enumerate(w) if t not in "()[]{}"]
            x = r.random()
            # errors near the end get far: prefer late positions sometimes
            def place(c): return c[-1 - int(len(c) * r.random() ** 2)] if r.random() < .5 else r.choice(c)
            if x < .3 and plain: del w[place(plain)]
            elif x < .55 and plain: w[place(plain)] = r.choice(self.alpha if r.random() < .85 else WILD)
            elif x < .72: w.insert(r.randint(0, len(w)), r.choice(self.alpha if r.random() < .8 else WILD))
            elif x < .8:
                # something left over at the end of a group, or of the text
                ends = [i for i, t in enumerate(w) if t in ")]}"] + [len(w)]
                w.insert(place(ends), r.choice(self.alpha + WILD[:4] if r.random() < .7 else WILD))
            elif x < .86:
                op, cl = r.choice(["()", "[]", "{}"])
                i = r.randint(0, len(w)); w[i:i] = [op, cl]
            elif x < .93 and len(plain) > 1:
                i, j = r.sample(plain, 2); w[i], w[j] = w[j], w[i]
            else:
                # change or drop a pair of delimiters
                st, prs = [], []
                for i, t in enumerate(w):
                    if t in "([{": st.append(i)
                    elif t in ")]}": prs.append((st.pop(), i))
                if prs:
                    i, j = r.choice(prs)
                    if r.random() < .5: w[i], w[j] = r.choice(["()", "[]", "{}"])
                    else: del w[j]; del w[i]
        return w

# ---------------------------------------------------------------- the two directions
def exhaustive(rep, grams, exe, see, rng, mode="d", layouts=1, check=None, spaces=None, env=None, module="MCPeg"):
    """specification -> code: every behaviour within the bound is executed"""
    spec = jsonfile(dict(toks=toks_of(grams), grams=[g.spec() for g in grams]), f"{rep.pid}-mc.json")
    outs, st = tlc(module, dict(PEG_JSON=spec, **(env or {})))
    rep.states(st)
    log(f"{rep.pid}: TLC enumerated {len(outs)} behaviours, {st['distinct']} states")
    lines, meta = [], []
    # once in the order of the specification; then again, inputs of equal size of the same grammar in any order and all at
    # the same place, so that what one parse leaves behind can be met by the next
    again = sorted(rng.sample(outs, min(len(outs), 20000)), key=lambda o: (o["g"], len(o["w"])))
    for k, o in enumerate(outs + again):
        for l in range(layouts if k < len(outs) else 1):
            un = not o["loc"]
            text, pos = render(o["w"], rng if (l or rng.random() < .5) and k < len(outs) else None, spaces)
            lines.append(vec(o["g"] - 1, mode + ("u" if un else ""), text)); meta.append((o, text, pos, not un))
    # and some far away: the places of a few tokens, or of all, are about the boundaries of small number types
    nfar = 0
    if rep.pid <= "C12":
        bad = [o for o in outs if o["loc"] and o["w"] and (o["out"]["ok"] is not True or rep.pid not in ("C03", "C10", "C11"))]
        for o in rng.sample(bad, min(2000 if thorough() else 400, len(bad))):
            ks = [k for k in range(len(o["w"])) if k == 0 or not (o["w"][k-1].endswith("~") and len(o["w"][k-1]) == 2)]
            text, pos = render(o["w"], rng, [" ", "\n"], far=(rng.choice(ks[-2:] + [rng.choice(ks)]), far_gap(rng)))
            lines.append(vec(o["g"] - 1, mode, text)); meta.append((o, text, pos, True)); nfar += 1
        rep.cov["behaviours_replayed_far_away"] = rep.cov.get("behaviours_replayed_far_away", 0) + nfar
    ans = Run(exe).all(lines)
    acc = 0
    for (o, text, pos, loc), a in zip(meta, ans):
        pl = Places(pos); got = outcome(a, pl, loc); exp = o["out"]
        why = differs(see, exp, got, loc) or (check(o, exp, a, got, text, pos, pl, loc) if check else None)
        if exp["ok"]: acc += 1
        if why: rep.violation(why, grammar=grams[o["g"]-1].rust(), tokens=o["w"], text=text[:3000], located=loc, expected=exp, got=a)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans))
    rep.cov["behaviours_replayed"] = rep.cov.get("behaviours_replayed", 0) + len(outs) * layouts
    rep.cov["behaviours_replayed_in_another_order"] = rep.cov.get("behaviours_replayed_in_another_order", 0) + len(again)
    rep.cov["accepted_inputs"] = rep.cov.get("accepted_inputs", 0) + acc
    rep.cov["rejected_inputs"] = rep.cov.get("rejected_inputs", 0) + len(ans) - acc
    k = [i for i, m in enumerate(meta) if m[0]["out"]["ok"]]
    for i in rng.sample(k, min(2, len(k))) + rng.sample(range(len(meta)), min(1, len(meta))):
        o, text, _, _ = meta[i]
        rep.sample(dict(direction="spec->code", grammar=o["g"], text=text[:300], outcome="ok" if o["out"]["ok"] else o["out"]["er"]))

def recorded(rep, grams, exe, see, rng, inputs, mode="d", spaces=None, check=None, unlocated=0.0, timeout=800):
    """code -> specification: inputs is a list of (grammar index, tokens); the real parser is run and
    every recording is validated by TLC against the machine"""
    lines, meta = [], []
    for gi, w in inputs:
        un = rng.random() < unlocated
        text, pos = render(w, rng, spaces)
        lines.append(vec(gi, mode + ("u" if un else ""), text)); meta.append((gi, w, text, pos, not un))
    ans = Run(exe).all(lines)
    recs, idx = [], []
    for k, ((gi, w, text, pos, loc), a) in enumerate(zip(meta, ans)):
        got = outcome(a, Places(pos), loc)
        if got["ok"] is None:
            rep.violation(f"the parser did not answer: {a}", grammar=grams[gi].rust(), text=text); continue
        recs.append(dict(g=gi + 1, w=w)); idx.append((k, got))
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    # what the specification prescribes is compared on the parts the property looks at
    for r, (k, got) in zip(recs, idx):
        loc = meta[k][4]
        er = got["er"]
        r.update(out=dict(ok=got["ok"], v=flatten(got["v"]) if see.v else [], er=er), seeOk=see.ok, seeV=bool(see.v), loc=loc,
                 seeAt=bool(see.at), seeMsg=bool(see.msg), seeCh=bool(see.ch))
    spec = jsonfile(dict(toks=toks_of(grams, [t for r in recs for t in r["w"]]), grams=[g.spec() for g in grams], recs=recs), f"{rep.pid}-tr.json")
    outs, st = tlc("PegTrace", dict(PEG_JSON=spec), xss="512m", timeout=timeout)
    rep.states(st)
    if len(outs) != len(recs): raise ToolError(f"TLC judged {len(outs)} of {len(recs)} recordings")
    for o in outs:
        k, got = idx[o["rec"] - 1]
        gi, w, text, pos, loc = meta[k]
        if not o["ok"]:
            rep.violation("recording rejected by the specification", grammar=grams[gi].rust(), tokens=w, text=text, located=loc,
                          expected=o["out"], got=ans[k])
    if check:
        byrec = {o["rec"]: o for o in outs}
        for ri, (k, got) in enumerate(idx):
            gi, w, text, pos, loc = meta[k]
            why = check(gi, w, ans[k], got, text, pos, Places(pos), loc)
            if why: rep.violation(why, grammar=grams[gi].rust(), tokens=w, text=text, got=ans[k])
    rep.traces(len(recs))
    rep.cov["recordings_validated"] = rep.cov.get("recordings_validated", 0) + len(recs)
    rep.cov["longest_recording_tokens"] = max([len(w) for _, w in inputs] + [rep.cov.get("longest_recording_tokens", 0)])
    for i in rng.sample(range(len(meta)), min(2, len(meta))):
        rep.sample(dict(direction="code->spec", grammar=meta[i][0] + 1, tokens=len(meta[i][1]), text=meta[i][2][:200], answer=ans[i]["r"]))
    return meta, ans
