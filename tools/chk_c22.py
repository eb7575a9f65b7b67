"""C22: every literal value prints to a token which reads back as that value; decided with the Lit specification:
whatever the code prints for a value, the specification's own reader must find that value in it."""
import random, struct
from core import *
from chk_c21 import MAIN, S, U, bits

def values(rng):
    """(type, value in the harness' spelling)"""
    t = thorough()
    out = [("Bool", "0"), ("Bool", "1")] + [("Byte", str(b)) for b in range(256)]
    edge = set()
    for k in range(65):
        for d in (-1, 0, 1): edge |= {2**k + d, -(2**k) + d}
    for k in range(20): edge |= {10**k, 10**k - 1, -10**k, 9 * 10**k}
    edge |= {rng.randrange(2**rng.randrange(1, 65)) * rng.choice([1, -1]) for _ in range(2000 if t else 300)} | set(range(-20, 300))
    out += [("Int", str(x)) for x in sorted(edge) if -2**63 <= x < 2**63] + [("Uint", str(x)) for x in sorted(edge) if 0 <= x < 2**64]
    fl = {0, 1, 2, 3}                                   # by their bits
    for e in list(range(0, 2047, 1 if t else 7)) + [0, 1, 2, 1022, 1023, 1024, 1075, 1076, 2045, 2046]:
        for m in (0, 1, 2**52 - 1, 2**51, rng.randrange(2**52)): fl.add(e << 52 | m)
    fl |= {int(bits(float(x)), 16) for x in ("0.1", "0.2", "1e16", "1e17", "123456789012345680", "1e21", "1e22", "1e23", "5e-324", "1.5", "100", "1e-5", "1e-7", "9007199254740993", "3.0", "1e15")}
    fl = sorted(fl); fl += [x | 1 << 63 for x in fl[:: (1 if t else 5)]] + [1 << 63]
    out += [("Float", "%016x" % x) for x in fl]
    sp = [0, 1, 7, 8, 9, 10, 11, 12, 13, 27, 31, 32, 34, 35, 36, 39, 47, 48, 49, 55, 56, 65, 92, 96, 97, 110, 117, 120, 123, 125, 126, 127]
    uni = [128, 133, 160, 173, 233, 0x301, 0x200b, 0x200d, 0x202e, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0xe0100, 0x10ffff]
    hi = [128, 129, 159, 160, 191, 192, 224, 240, 254, 255]
    out += [("Char", str(c)) for c in sp + uni + [c for c in (rng.randrange(0x110000) for _ in range(200)) if not 0xd800 <= c < 0xe000]]
    j = lambda *x: ",".join(map(str, x))
    out += [("Str", ""), ("ByteStr", "")]
    out += [("Str", j(a, b)) for a in sp + uni for b in sp + uni] + [("ByteStr", j(a, b)) for a in sp + hi for b in sp + hi]
    out += [("ByteStr", j(*x)) for x in ([b] for b in range(256))] + [("ByteStr", j(*range(256))), ("ByteStr", j(*range(255, -1, -1)))]
    for _ in range(2000 if t else 300):
        n = rng.choice([1, 2, 3, 3, 4, 8, 30, 100])
        out.append(("Str", j(*(rng.choice(sp + uni) for _ in range(n))))); out.append(("ByteStr", j(*(rng.choice(sp + hi) if rng.random() < .7 else rng.randrange(256) for _ in range(n)))))
    for n in [255, 256, 257, 1000, 1025] + ([5000, 70000] if t else [4100]):
        for al in ([97], sp + uni, [34, 92, 97]): out.append(("Str", j(*(rng.choice(al) for _ in range(n)))))
        for al in ([97], sp + hi, [34, 92, 0]): out.append(("ByteStr", j(*(rng.choice(al) for _ in range(n)))))
    # what could end a raw string, or start an escape, at every place
    for x in ('"#', '"##', '\\"', '\\\\', '\\n', '\\u{41}', '\\x41', '{}', '//', '/*', '*/', "'", '\\\n  a', '\r\n', '\n\r', 'r"', 'b"', '\0' + '7', '\x1b[0m', 'e\u0301', '\U0001f468\u200d\U0001f469'):
        for f in ("%s", "a%s", "%sa", "a%sa", "%s%s"):
            y = f.replace("%s", x)
            out.append(("Str", j(*map(ord, y))))
            if all(ord(c) < 128 for c in y): out.append(("ByteStr", j(*map(ord, y))))
    return list(dict.fromkeys(out))

def denote(T, v):
    """the literal which a text printed for the value has to be"""
    if T == "Int" or T == "Uint": return dict(kind="int", neg=v.startswith("-"), val=[] if v == "0" else [int(c) for c in v.lstrip("-")])
    if T == "Float": return dict(kind="float", neg=False, val=[])
    return dict(kind=dict(Bool="bool", Byte="byte", Char="char", Str="str", ByteStr="bytestr")[T], neg=False, val=[int(x) for x in v.split(",") if x])

def same_float(it, b):
    x = struct.unpack(">d", bytes.fromhex(b))[0]
    if it["neg"] != (b[0] in "89abcdef"): return False
    return float("".join(map(str, it["val"])) + f"e{it['e']}" if it["val"] else "0") == abs(x)

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 22)
    exe = build("chklit", {"main.rs": MAIN})
    vs = values(rng); lines = [f"V\t{T}\t{v}" for T, v in vs]
    r = Run(exe); r.limit = 200
    ans = r.all(lines)
    recs, src = {}, []
    for (T, v), a in zip(vs, ans):
        if a["r"] != "ok": rep.violation(f"printing a value fails: {a}", type=T, value=v); continue
        if not a["back"] or not a["toks"]: rep.violation(f"a printed Lit{T} does not read back as the same value", type=T, value=v, got=a["texts"])
        if not a["at"]: rep.violation(f"the tokens of a Lit{T} are not at its location", type=T, value=v)
        for n, x, s in a["ways"]:
            if x != v: rep.violation(f"{n} of Lit{T} gives {x}", type=T, value=v)
            if s and s != a["here"]: rep.violation(f"{n} of Lit{T} loses the location", type=T, value=v)
        for t in a["texts"]: recs.setdefault((T, v, t), None)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    log(f"C22: {len(vs)} values printed as {len(recs)} texts")
    keys = list(recs); tl = [dict(k="value", txt=S(t), vals=[denote(T, v)]) for T, v, t in keys]
    # all characters there are, by runs printed in the same manner
    step = 1 if thorough() else 61
    bounds = [0, 0x800, 0x3000, 0x8000, 0xd800, 0xe000, 0x10000, 0x18000, 0x20000, 0x40000, 0x80000, 0xc0000, 0xe0000, 0x110000]
    rl = [f"R\t{c}\t{a}\t{b - 1}\t{step}" for c in ("char", "str") for a, b in zip(bounds, bounds[1:])]
    ra = r.all(rl); n = 0; rk = []
    for l, a in zip(rl, ra):
        c = l.split("\t")[1]
        if a["r"] != "ok": rep.violation(f"printing characters fails: {a}", range=l); continue
        if a["wrong"]: rep.violation("a printed character does not read back", what2=a["wrong"])
        for form, lo, hi in a["runs"]:
            n += hi - lo + 1
            if form in ("plain", "unicode"): tl.append(dict(k="run", ctx=c, form=form, lo=lo, hi=hi)); rk.append((c, form, lo, hi))
            else: tl.append(dict(k="value", txt=S(form), vals=[denote("Char" if c == "char" else "Str", str(lo))])); rk.append((c, form, lo, hi))
    if len(ra) < len(rl) and not rep.viol: raise ToolError("incomplete run")
    if n < 2 * 1112064 and not rep.viol: raise ToolError(f"{n} characters only")
    # whole streams of values
    sv, sl = [], []
    for _ in range(100 if thorough() else 25):
        xs = [rng.choice(vs) for _ in range(rng.choice([2, 10, 40]))]
        sv.append(xs)
    tmap = {}
    for T, v, t in keys: tmap.setdefault((T, v), t)
    for xs in sv:
        t = rng.choice([" ", "\n"]).join(tmap[x] for x in xs if x in tmap)
        tl.append(dict(k="value", txt=S(t), vals=[denote(T, v) for T, v in xs if (T, v) in tmap]))
    outs, st = tlc("LitTrace", dict(LIT_JSON=jsonfile(dict(fams=[dict(alpha=[], max=0, min=0, pre=[], post=[])], recs=tl), "C22-tr.json")), xss="256m"); rep.states(st)
    if len(outs) != len(tl): raise ToolError("TLC did not judge all recordings")
    for o in outs:
        k = o["rec"] - 1
        if k < len(keys):
            T, v, t = keys[k]
            if not o["ok"]: rep.violation(f"the text printed for a Lit{T} does not denote its value", type=T, value=v, text=t)
            elif T == "Float" and not same_float(o["items"][0], v): rep.violation("the text printed for a float denotes another number", value=v, text=t)
        elif k < len(keys) + len(rk):
            if not o["ok"]: rep.violation("characters printed so do not denote themselves", chars=rk[k - len(keys)])
        elif not o["ok"]: rep.violation("a printed stream of literals does not denote the values", text=U(tl[k]["txt"])[:500])
    rep.traces(len(tl)); rep.cov.update(values_printed=len(vs), texts_validated=len(keys), characters_covered=n, character_runs=len(rk), streams_validated=len(sv), reparsed_characters_every=step)
    for T, v, t in rng.sample(keys, 3): rep.sample(dict(direction="code->spec", type=T, value=v, text=t))
    return rep
