"""C13: source locations, decided with the Loc specification."""
import random
from core import *
MAIN = open(os.path.join(HERE, "loclib.rs")).read()

GAPS = ["", " ", "\n", "\r\n", "\t", "\r", "/* \u00e9\n\u4e16 */", "// \U0001f600\n", "\u2028", "\u00a0", "\n\n", "\r\n\r\n ", "  ", "\u0085", "\u3000\n", "/*/* */\r\n*/", "//\n", "\x0b\x0c"]
HUGE = [(" ", 260), ("\n", 260), ("/*\u00e9*/", 300), (" // \u4e16\u4e16\n", 90), ("\r\n", 1100), ("\t", 5000), ("/*\U0001f600\n*/", 1030), ("\n", 4100), ("\u00a0", 33000), (" ", 66000), ("\n", 66000)]
W = ["a", "\u00e9t\u0151", "begin", "end\u00e9", "_", "r#fn", "\u4e16"]
L = ['"s"', '"\u00e9\n\U0001f600"', '"a\r\nb"', "'\u4e16'", "'\\u{1F600}'", "b'x'", 'b"y\\\nz"', "1", "0xff_u8", "1.5", "2e3", "true", 'r"\n"', 'r#"\u00df"\n"#']
SIGNED = [["-", "5"], ["-", "1.25"]]
def single(xs): return [[x] for x in xs]
G1 = [["(", ")"], ["(", "a", ")"], ["[", "a", ",", "]"], ["[", "a", ",", "\u00e9", "]"], ["{", "}"], ["(", "-", "5", ")"]]
G2 = [["{", "?", "a", ",", "1", "}"], ["{", "!", "a", "+", "b", "+", "c", "}"], ["{", "^", "a", ";", "b", ";", "c", "}"], ["{", "#", "=", "a", "}"], ["{", "#", "}"],
      ["{", "%", '"\u00e9"', "}"], ["{", "%", "\u00e9", "}"], ["@", "-", "5"], ["@", '"\U0001f600"'], ["@", "true"], ["@", "-", "1.5"]]

def fams():
    t = thorough()
    few = ["", " ", "\n", "\r\n", "\u3000\n"]
    fs = [dict(items=single(W[:3] + L[:5]), gaps=few + ["/* \u00e9\n\u4e16 */", "// \U0001f600\n"], max=2),
            dict(items=single(["a", '"\u00e9\n\U0001f600"']), gaps=["", "\n", "\r\n", " ", "\r", "\u2028"], max=4 + t),
            dict(items=single(W + L), gaps=GAPS, max=1 + t),
            dict(items=single(W + L + ["=>", "<<="]) + SIGNED, gaps=["", "\n", "\u00a0"], max=2),
            dict(items=SIGNED + [["@", "-", "5"]], gaps=GAPS, max=1),
            dict(items=G1, gaps=["", "\n", "\r\n", "\u3000"], max=1 + t),
            dict(items=G2, gaps=["", "\r\n", "/* \u00e9\n\u4e16 */"][:2 + t], max=1),
            dict(items=G1[:3] + [["-", "5"], ["a"]], gaps=["", "\u2028\n"], max=2 + t)]
    for k, f in enumerate(fs): f["heads"] = ["", "\ufeff"] if k in (1, 3, 4, 5) else [""]
    return fs

def widths(): return {c: len(c.encode()) for c in WIDE if len(c.encode()) > 1}

def nodes(a): return [dict(what=x[0], i=x[1], j=x[2], br=[x[3], x[4]], cr=[x[5], x[6]], sub=x[7], fmt=x[8], alt=x[9]) for x in a["nodes"]]
def cmp(want, x):
    for k, name in (("br", "byte range"), ("cr", "character range"), ("sub", "source substring"), ("fmt", "formatted location")):
        if want[k] != x[k]: return f"{name} of a {x['what']} is {x[k]!r} where {want[k]!r} is prescribed"
    if not x["alt"]: return f"the span of a {x['what']} reports something else than the node"
    return None

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 13)
    exe = build("chkloc", {"main.rs": MAIN})
    outs, st = tlc("MCLoc", dict(LOC_JSON=jsonfile(dict(widths=widths(), fams=fams()), "C13-mc.json"))); rep.states(st)
    seen = {}
    for o in outs: seen.setdefault(o["txt"], o)
    # ends of texts differ, too
    todo = list(seen.values()); rng.shuffle(todo)
    tails = ["", "\n", " ", "\r\n", "// \u00e9", "/*\n*/"]
    log(f"C13: TLC enumerated {len(todo)} texts, {st['distinct']} states")
    lines = []
    for o in todo:
        o["src"] = o["txt"] + rng.choice(tails)
        lines.append(o["src"].encode().hex() + "\t" + rng.choice("ps"))
    ans = Run(exe).all(lines)
    for o, a in zip(todo, ans):
        why = None
        if a["r"] != "ok": why = f"the text is not accepted: {a}"
        elif a["n"] != o["n"]: why = f"{a['n']} tokens accounted for instead of {o['n']}"
        elif a["old"] == "nothing": why = "a node without tokens denotes some text"
        elif not a["old"]: why = "a node of an earlier text reports another location now"
        else:
            for x in nodes(a):
                why = cmp(o["den"][x["i"] - 1][x["j"] - x["i"]], x)
                if why: break
        if why: rep.violation(why, text=o["src"])
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["texts_replayed"] = len(ans); rep.cov["nodes_compared"] = sum(len(a.get("nodes", [])) for a in ans)
    for o in rng.sample(todo, 2): rep.sample(dict(direction="spec->code", text=o["src"]))
    # recordings of long random texts
    recs, srcs = [], []
    for _ in range(600 if thorough() else 150):
        parts = []
        style = rng.choice([GAPS, [" ", "\n"], [" ", "\r\n"], [" ", "\n", "\r\n"], GAPS])
        def put(t):
            g = rng.choice(style)
            if g == "" and parts and not ({t, parts[-1][1]} & set("()[]{},;")): g = " "
            parts.append([g, t])
        def emit(depth):
            x = rng.random()
            if x < .35: put(rng.choice(W))
            elif x < .65: put(rng.choice(L))
            elif x < .72: put("-"); put(rng.choice(["5", "1.25", "70", "0.5"]))
            elif x < .76: put("@"); put(rng.choice(L))
            elif x < .8: put(rng.choice(["=>", "<<="]))
            elif depth < 6:
                k = rng.choice("((([{{{{")
                put(k)
                if k == "(": [emit(depth + 1) for _ in range(rng.choice([0, 1, 3]))]; put(")")
                elif k == "[":
                    n = rng.choice([0, 1, 3])
                    for m in range(n): emit(depth + 1); (m < n - 1 or rng.random() < .5) and put(",")
                    put("]")
                else:
                    q = rng.choice("?!^#%")
                    put(q)
                    if q in "?!^":
                        for m in range(rng.choice([1, 2, 4])):
                            if m: put({"?": ",", "!": "+", "^": ";"}[q])
                            emit(depth + 1)
                    elif q == "#" and rng.random() < .7: put("="); emit(depth + 1)
                    elif q == "%": put(rng.choice(['"\u00e9"', "\u00e9", "a"]))
                    put("}")
        goal = rng.choice([5, 20, 60, 120])
        while len(parts) < goal: emit(0)
        if len(parts) > 300: parts = parts and [["", "a"]]
        if len(recs) < 2 * len(HUGE):                      # every one of them, with something on its line and on later ones
            parts = [["", rng.choice(W)], ["", "("], [rng.choice(["", " ", "\n"]), rng.choice(W + L)], [" ", rng.choice(L)], [" ", rng.choice(W)], ["\n", "-"], ["", "5"], ["", ")"], ["", rng.choice(L)]]
            parts[2] = [parts[2][0], parts[2][1]] + list(HUGE[len(recs) % len(HUGE)])
        else:
          for _ in range(rng.choice([0, 0, 0, 1, 2])):     # columns, lines and offsets that need more than one byte or two
              parts[rng.randrange(len(parts))][2:] = rng.choice(HUGE if len(recs) % 12 == 0 and len(parts) < 70 else HUGE[:5])
        if rng.random() < .2: parts[0][0] = "\ufeff" + parts[0][0]
        recs.append(dict(parts=parts)); srcs.append("".join(x[0] + (x[2] * x[3] if len(x) > 2 else "") + x[1] for x in parts) + rng.choice(tails))
    ans = Run(exe).all([s.encode().hex() + "\t" + rng.choice("ps") for s in srcs])
    good, idx = [], []
    for k, (r, s, a) in enumerate(zip(recs, srcs, ans)):
        if a["r"] != "ok": rep.violation(f"the text is not accepted: {a}", text=s); continue
        if a["old"] == "nothing": rep.violation("a node without tokens denotes some text", text=s)
        if not a["old"]: rep.violation("a node of an earlier text reports another location now", text=s)
        r["nodes"] = nodes(a)
        if a["n"] != len(r["parts"]) or any(not x["alt"] for x in r["nodes"]): rep.violation("tokens not accounted for, or a span disagrees with its node", text=s, got=a); continue
        for x in r["nodes"]: del x["alt"]
        good.append(r); idx.append(k)
    if len(ans) < len(srcs) and not rep.viol: raise ToolError("incomplete run")
    outs, st = tlc("LocTrace", timeout=300, env=dict(LOC_JSON=jsonfile(dict(widths=widths(), fams=[dict(items=[], gaps=[], heads=[''], max=0)], recs=good), "C13-tr.json")), xss="256m"); rep.states(st)
    if len(outs) != len(good): raise ToolError("TLC did not judge all recordings")
    for o in outs:
        if not o["ok"]:
            x = good[o["rec"] - 1]["nodes"][o["at"] - 1]
            rep.violation("recorded location rejected: " + str(cmp(o["want"][0], dict(x, alt=True))), text=srcs[idx[o["rec"] - 1]])
    rep.traces(len(good)); rep.cov["recordings_validated"] = len(good); rep.cov["longest_recorded_text"] = max(map(len, srcs))
    rep.sample(dict(direction="code->spec", text=srcs[0][:120]))
    return rep
