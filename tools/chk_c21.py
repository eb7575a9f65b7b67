"""C21: which literals the literal types accept, and as which values; decided with the Lit specification."""
import random, struct
from core import *
MAIN = open(os.path.join(HERE, "litlib.rs")).read()
TYPES = ["Bool", "Byte", "Int", "Uint", "Float", "Char", "Str", "ByteStr", "Lit"]

def S(x): return [ord(c) for c in x]
def U(x): return "".join(map(chr, x))
def bits(x): return struct.pack(">d", x).hex()

def fams():
    t = thorough()
    F = lambda alpha, mx, pre="", post="", mn=1: dict(alpha=[S(x) for x in alpha], max=mx, min=mn, pre=S(pre), post=S(post))
    I, U_ = 2**63, 2**64
    near = [I - 2, I - 1, I, I + 1, U_ - 2, U_ - 1, U_, U_ + 1, 2**31, 2**32 - 1, 2**53 + 1, 10**19, 10**18, 255, 0, 10**25]
    big = [str(x) for x in near] + ["0x%x" % x for x in near] + ["0x%X" % x for x in near[:7]] + ["0o%o" % x for x in near] + ["0b{:b}".format(x) for x in near]
    sep = ["9_223_372_036_854_775_807", "9_223_372_036_854_775_808", "1_8_446_744_073_709_551_615", "18_446_744_073_709_551_616_", "0x_7fff_ffff_ffff_ffff", "0x8000_0000_0000_0000", "0x_FfFf_ffff_ffff_ffff_", "000000000000000000000000000000012", "-0", "- 0", "-0x0", "-0b0"]
    fs = [F(["0", "1", "8", "9", "_"], 4 + t, "", ""), F(["0", "1", "7", "_"], 3, "-", ""), F(["0", "9", "_"], 3, "- \n ", "\n")]
    for pre, al in (("0x", "09afAF_"), ("0o", "0178_"), ("0b", "0129_")):
        fs.append(F(list(al), 3 + t, pre)); fs.append(F(list(al[:5]), 2, "-" + pre))
    fs += [F(big + sep, 1), F(big, 1, "-"), F(big + sep, 1, "", "u8" if SEED % 2 else "i64"), F(big[:7], 1, "- ", "_isize"), F(["5", "0x5", "1_", "1.5", "2e3"], 1, "", "", 1)]
    fs.append(dict(F(["u8", "i64", "f64", "f32", "abc", "_", "E", "e", "_e", "usize", "x", "u128", "z9"], 1, "12"), min=0))
    # floats
    fs += [F(["0", "1", "5", ".", "e", "_"], 5 + t), F(["1", ".", "e", "-", "+", "5"], 5, "2"), F(["0", ".", "e5", "3", "f64"], 3, "-")]
    edge = ["1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "179769313486231580793e288", "179769313486231570814527423731704356798070e267",
            "1e308", "1e309", "9.9e308", "1e400", "1e-400", "1e-310", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "0e999", "0.0e9999", "1e-9999", "12345678901234567890.0", "0.1", "0.30000000000000004", "9007199254740993.0",
            "1797693134862315807.9e290", "1_000.000_1e1_0", "5e-0", "1E5", "1.5E+3", "1.e0", "1.", "0.", "100000000000000000000000000000000.0", "2.2250738585072011e-308",
            U_s(2**1024 - 2**970) + ".0", U_s(2**1024 - 2**970 - 1) + ".999", U_s(2**1024 - 2**970 - 1) + "e0", "0." + "0" * 30 + "1", "1" + "0" * 308 + "e0", "1" + "0" * 309 + "e-1", "1" + "0" * 309 + "e0"]
    fs += [F(edge, 1), F(edge, 1, "-"), F(edge, 1, "", "f32" if SEED % 2 else "f64"), F(edge, 1, "- ", "x9")]
    # characters and strings
    atom = ["a", "0", " ", "'", '"', "\\n", "\\r", "\\t", "\\\\", "\\0", "\\'", '\\"', "\\x41", "\\x7f", "\\x00", "\\x80", "\\xfF", "\\u{41}", "\\u{0}", "\\u{e9}", "\\u{10FFFF}", "\\u{1_F6_00}", "\u00e9", "\u4e16", "\U0001f600", "\U0010ffff", "\u0301", "\u200b",
            "\t", "\n", "\\\n  ", "\\\n", "\\u{d800}", "\\u{110000}", "\\u{}", "\\q", "\\x4", "\u0080", "\x7f", "#", "\\\n\n \t\\\n"]
    for pre, post in (("'", "'"), ("b'", "'")): fs.append(dict(F(atom, 1, pre, post), min=0)); fs.append(F(["a", "\\x41", "'"], 2, pre, post))
    few = ["a", "0", "\\0", "\\n", "\\x41", "\\\\", '\\"', "\\\n  ", "\n", "\u00e9", "\\u{e9}", "'", "\\x7f"]
    for pre in ('"', 'b"'):
        fs.append(dict(F(atom, 2 if t else 1, pre, '"'), min=0)); fs.append(F(few, 2 + t, pre, '"')); fs.append(F(few[:5], 3, pre, '"'))
        fs.append(F(["s", "_x", "e5", "u8"], 1, pre + 'a"'))
    for pre, post in (('r"', '"'), ('r#"', '"#'), ('r##"', '"##'), ('br"', '"'), ('br#"', '"#')):
        fs.append(dict(F(["a", "\\n", "\\", '"', "#", "\u00e9", "\n", "'"], 2 + t, pre, post), min=0))
    fs += [F(["a", "\\n"], 1, 'c"', '"'), F(["x", "_s"], 1, "'a'"), F(["x", "u8"], 1, "b'a'"), F(["#"], 1, 'r"a"')]
    # several tokens; no literals
    many = ["true", "false", "1", "-", "2.5", "'a'", "b'a'", '"s"', 'b"s"', "x", "True", "truex", "+", "- 3", "-4.5", "fn", "(1)", "c\"s\"", "99999999999999999999", "1e999", "[", "()", "r#true", "r#fn"]
    fs += [dict(F([m + " " for m in many if m not in ("[", "truex")], 2), min=0), F(["truex", "falsey", "true1", "_true", "false_"], 1), F(["\n", " ", "\t", "true", "'\u4e16'", "7"], 3), F(["-", "5", " ", "\n"], 4), F(["--5", "-true", "- 'a'", "-\"a\"", "-b'1'", "+5", "-x", "-(5)", "*", "!true", "-c\"s\"", "-r\"s\""], 1)]
    return fs
def U_s(x): return str(x)

def value(T, it):
    """the value which the types must hold, in the spelling of the harness"""
    k, v = it["kind"], it["val"]
    if T == "Lit": T = it["v"]; pre = T + ":"
    else: pre = ""
    if T in ("Int", "Uint"): x = ("-" if it["neg"] and v else "") + ("".join(map(str, v)) or "0")
    elif T == "Float": x = bits(float(("-" if it["neg"] else "") + ("".join(map(str, v)) or "0") + f"e{it['e']}"))
    else: x = ",".join(map(str, v))
    return pre + x

def lc(txt):
    """for every offset: [line, column]"""
    r, l, c = [], 1, 0
    for ch in txt:
        r.append([l, c])
        if ch == "\n": l += 1; c = 0
        else: c += 1
    return r + [[l, c]]

def flat(o):
    for x in o["items"]: x["it"]["v"] = x["v"]; x["it"]["as"] = x["as"]
    o["items"] = [x["it"] for x in o["items"]]
    return o

def strange(its, txt):
    """what follows the first token which is no literal may not be made of tokens at all"""
    rest = txt[its[-1]["from"] - 1:] if its[-1]["kind"] == "alien" else ""
    return "#" in rest or "\\" in rest or rest.count('"') % 2 or rest.count("'") % 2

def judge(T, o, txt, a):
    if a["r"] != "ok": return f"no answer: {a}"
    pos = lc(txt); its = o["items"]
    first = its[0] if its else None
    want = "kind" if o["dead"] or not its else first["as"][T]
    def at(it): return pos[it["from"] - 1] + pos[it["to"] - 1]
    for r in a["by"]:
        if want == "any": continue
        if want == "ok" and len(its) == 1:
            if not r["ok"]: return f"a Lit{T} literal is rejected ({r['by']})"
            if r["v"] != value(T, first): return f"Lit{T} holds {r['v']} where the spelling denotes {value(T, first)}"
            if r["at"] != at(first): return f"Lit{T} is located at {r['at']} instead of {at(first)}"
        else:
            if r["ok"]: return f"Lit{T} accepts " + ("several tokens" if want == "ok" else "a value out of range" if want == "range" else "what is not its kind of literal") + f" ({r['by']}, as {r['v']})"
            if o["dead"] or not its or strange(its, txt): continue
            if want == "range" and r["at"] != at(first): return f"the rejection of a value out of range is located at {r['at']} instead of {at(first)}"
            if want == "kind" and r["at"][:2] != at(first)[:2]: return f"the rejection is located at {r['at']} instead of {at(first)}"
            if want == "ok" and r["at"][:2] != at(its[1])[:2]: return f"the rejection of a second token is located at {r['at']} instead of {at(its[1])}"
    if want == "ok" and len(its) == 1 and "ways" in a:
        for n, v, s in a["ways"]:
            if v != value(T, first): return f"{n} of Lit{T} gives {v} where the spelling denotes {value(T, first)}"
            if s and s != at(first): return f"{n} of Lit{T} gives the location {s} instead of {at(first)}"
        if not a["moved"]: return f"moving a Lit{T} changes more than its location"
    return None

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 21)
    exe = build("chklit", {"main.rs": MAIN})
    outs, st = tlc("MCLit", dict(LIT_JSON=jsonfile(dict(fams=fams()), "C21-mc.json"))); rep.states(st)
    seen = {}
    for o in outs: seen.setdefault(tuple(o["txt"]), flat(o))
    todo = list(seen.values())
    log(f"C21: TLC enumerated {len(todo)} texts, {st['distinct']} states")
    lines, meta = [], []
    for o in todo:
        txt = U(o["txt"])
        k = next((x for x in o["items"][:1]), None)
        likely = {"Lit"} | ({T for T in TYPES if k["as"][T] in ("ok", "range")} if k else set())
        for T in TYPES:
            if T in likely or thorough() or rng.random() < .25: lines.append(f"T\t{T}\t{txt.encode().hex()}"); meta.append((T, o, txt))
    ans = Run(exe).all(lines)
    for (T, o, txt), a in zip(meta, ans):
        why = judge(T, o, txt, a)
        if why: rep.violation(why, type=T, text=txt, got=a)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["texts"] = len(todo); rep.cov["readings_compared"] = len(ans)
    rep.cov["accepted"] = sum(1 for (T, o, _) in meta if not o["dead"] and len(o["items"]) == 1 and o["items"][0]["as"][T] == "ok")
    for T, o, txt in rng.sample(meta, 3): rep.sample(dict(direction="spec->code", type=T, text=txt))
    # recordings: whole streams of literals, every one of them judged
    recs, srcs, lines = [], [], []
    for _ in range(500 if thorough() else 120):
        k = rng.choice([1, 5, 20, 60]); parts = [spelling(rng) for _ in range(k)]
        txt = "".join(x + rng.choice([" ", "\n", "  ", "\t"]) for x in parts)
        recs.append(txt); lines.append(f"M\tLit\t{txt.encode().hex()}")
    ans = Run(exe).all(lines)
    good = []
    for txt, a in zip(recs, ans):
        if a["r"] != "ok": rep.violation(f"no answer: {a}", text=txt); continue
        good.append((txt, a))
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    outs, st = tlc("LitTrace", dict(LIT_JSON=jsonfile(dict(fams=[dict(alpha=[], max=0, min=0, pre=[], post=[])],
             recs=[dict(k="lits", txt=S(t), vals=[]) for t, a in good]), "C21-tr.json")), xss="256m"); rep.states(st)
    if len(outs) != len(good): raise ToolError("TLC did not judge all recordings")
    for o in outs:
        txt, a = good[o["rec"] - 1]; pos = lc(txt)
        why = streamjudge(o, pos, a)
        if why: rep.violation(why, text=txt, got=str(a)[:2000])
    rep.traces(len(good)); rep.cov["recordings_validated"] = len(good); rep.cov["recorded_literals"] = sum(len(o["items"]) for o in outs)
    rep.sample(dict(direction="code->spec", text=recs[0][:120]))
    return rep

def streamjudge(o, pos, a):
    if o["dead"]: return None if not a["ok"] else "an unreadable text is accepted"
    its = o["items"]
    stop = next((i for i, x in enumerate(its) if x["as"] != "ok"), None)
    if stop is not None:
        if a["ok"]: return "a stream is accepted with a token that is no acceptable literal"
        if a["at"][:2] != pos[its[stop]["from"] - 1]: return "the error in a stream of literals points elsewhere"
        return None
    if not a["ok"]: return "a stream of literals is rejected"
    if len(a["items"]) != len(its): return "the number of literals differs"
    for x, y in zip(its, a["items"]):
        if y[0] != x["v"]: return f"a literal is classified as {y[0]} instead of {x['v']}"
        if y[0] + ":" + y[1] != value("Lit", x): return f"a literal holds {y[1]} instead of {value('Lit', x)}"
        if y[2:] != pos[x["from"] - 1] + pos[x["to"] - 1]: return "a literal is located elsewhere"
    if not a["back"]: return "the printed stream does not read back as the same literals"
    return None

def spelling(rng):
    def digs(al, n):
        s = "".join(rng.choice(al + "_") for _ in range(n)); return s
    k = rng.random()
    sgn = rng.choice(["", "", "", "-", "- "])
    if k < .25:
        n = rng.choice([1, 3, 10, 18, 19, 19, 19] + ([25] if rng.random() < .1 else []))
        if rng.random() < .1: return sgn + rng.choice(["0", "0x0", "0b0", "0o0"]) + rng.choice("0_") * rng.choice([20, 70, 130, 300]) + rng.choice("01") + rng.choice(["", "0", "_1", "_" * 70])
        d = rng.choice("123456789") + digs("0123456789", n - 1).replace("_", rng.choice(["_", "7"]))
        x = int(d.replace("_", "")); lim = 2**63 if sgn else 2**64 - 1
        if x > lim and rng.random() < .9: d = str(x % (lim + 1))
        return sgn + d + rng.choice(["", "", "u8", "i128", "zz"])
    if k < .4:
        r, al = rng.choice([("0x", "0123456789abcdefABCDEF"), ("0o", "01234567"), ("0b", "01")])
        lim = 2**63 if sgn else 2**64 - 1
        x = rng.choice([rng.randrange(lim + 1), lim, lim - 1, 0, rng.randrange(300)])
        s = {"0x": "%x", "0o": "%o"}.get(r, "%s") % (x if r != "0b" else bin(x)[2:])
        s = "".join(rng.choice([c, c.upper()]) + rng.choice(["", "", "_"]) for c in s)
        return sgn + r + s
    if k < .55:
        return sgn + str(rng.randrange(10 ** rng.choice([1, 5, 17, 30]))) + rng.choice([".", ".0", ".5", "." + str(rng.randrange(10**12)), "e5", ".25e-7", "E+3", f".1e{rng.randrange(-330, 300)}", "e-310"]).replace(".e", ".0e") + rng.choice(["", " "])
    if k < .56: return sgn + "0" * rng.choice([0, 1, 30]) + str(rng.randrange(10 ** 17)) + "0" * rng.choice([0, 100, 280]) + "." + "0" * rng.choice([1, 100, 320]) + str(rng.randrange(10 ** 17)) + "_" * rng.choice([0, 70])
    if k < .6: return rng.choice(["true", "false"])
    atoms = ["a", "z", "0", "7", " ", "\\n", "\\r", "\\t", "\\\\", "\\0", "\\'", '\\"', "\\x41", "\\x7f", "\\x00"]
    uni = ["\\u{41}", "\\u{10FFFF}", "\\u{1_F6_00}", "\u00e9", "\u4e16", "\U0001f600", "\u0301", "\\u{d7ff}", "\\u{e000}"]
    if k < .7: return "'" + rng.choice(atoms + uni + ['"']) + "'"
    if k < .78: return "b'" + rng.choice(atoms + ["\\x80", "\\xff", "\\xFe", '"']) + "'"
    n = rng.choice([0, 1, 3, 20, 100, 100, 300])
    if k < .88: return '"' + "".join(rng.choice(atoms + uni + ["'", "\n", "\\\n  \n "]) for _ in range(n)) + '"'
    if k < .95: return 'b"' + "".join(rng.choice(atoms + ["'", "\n", "\\xff", "\\x80", "\\\n  "]) for _ in range(n)) + '"'
    h = "#" * rng.choice([0, 1, 2])
    al = ["a", "\\", "\n", "'", "\\n"] + (['"x'] if h else [])
    if k < .98: return f'r{h}"' + "".join(rng.choice(al + ["\u00e9"]) for _ in range(n)) + f'"{h}'
    return f'br{h}"' + "".join(rng.choice(al) for _ in range(n)) + f'"{h}'
