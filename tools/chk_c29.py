"""C29: the location of a value through every form and conversion, decided with the Carry specification."""
import random
from core import *
MAIN = open(os.path.join(HERE, "carrylib.rs")).read()

def hx(s): return s.encode().hex()
def V(v, k, show, toks, kinds=None, deflt=None, kw=False, raw=False, maxg=1):
    return v, dict(k=k, neg=len(toks) == 2, kinds=kinds or [k], def_=deflt or k, kw=kw, raw=raw, maxg=maxg, show=show, toks=toks)
def values():
    i = ["int"]; u = ["uint"]; iu = ["int", "uint"]
    vs = [V("bool:true", "bool", "true", ["true"]), V("bool:false", "bool", "false", ["false"]),
          V("byte:97", "byte", "97", ["b'a'"]), V("byte:10", "byte", "10", ["b'\\n'"]),
          V("int:7", "int", "7", ["7"], iu, "uint"), V("int:0", "int", "0", ["0"], iu, "uint"), V("int:-5", "int", "-5", ["-", "5"], i, "int", maxg=2),
          V("int:9223372036854775807", "int", "9223372036854775807", ["9223372036854775807"], iu, "uint"),
          V("int:-9223372036854775808", "int", "-9223372036854775808", ["-", "9223372036854775808"], i, "int"),
          V("uint:7", "uint", "7", ["7"], iu, "uint"), V("uint:18446744073709551615", "uint", "18446744073709551615", ["18446744073709551615"], u, "uint"),
          V("float:2.5", "float", "2.5", ["2.5"]), V("float:-2.5", "float", "-2.5", ["-", "2.5"]), V("float:-0.0", "float", "-0.0", ["-", "0.0"]), V("float:3.0", "float", "3.0", ["3.0"]),
          V("char:120", "char", "'x'", ["'x'"]), V("char:39", "char", "'\\''", ["'\\''"]),
          V("str:" + hx("s t"), "str", '"s t"', ['"s t"'], maxg=2), V("str:", "str", '""', ['""']),
          V("bytes:" + hx("zy"), "bytes", "[122, 121]", ['b"zy"']),
          V("word:foo", "word", "foo", ["foo"], kw=True, maxg=2), V("word:if", "word", "if", ["if"], kw=True), V("word:bar", "word", "bar", ["bar"]),
          V("word:r#foo", "word", "r#foo", ["r#foo"], raw=True), V("word:_", "word", "_", ["_"]), V("word:fn", "word", "fn", ["fn"]), V("word:Foo", "word", "Foo", ["Foo"]),
          V("pair:y", "pair", "x y", ["x", "y"], maxg=2)]
    more = [V("char:233", "char", "'é'", ["'é'"]), V("char:128512", "char", "'😀'", ["'😀'"]), V("char:10", "char", "'\\n'", ["'\\n'"]), V("char:0", "char", "'\\0'", ["'\\0'"]), V("char:34", "char", "'\"'", ["'\"'"]),
            V("str:" + hx('é😀'), "str", '"é😀"', ['"é😀"']), V("str:" + hx('a\n"'), "str", '"a\\n\\""', ['"a\\n\\""']), V("str:" + hx("x" * 300), "str", '"' + "x" * 300 + '"', ['"' + "x" * 300 + '"']),
            V("str:" + hx("'"), "str", '"\'"', ['"\'"']), V("bytes:", "bytes", "[]", ['b""']), V("bytes:" + hx("\x00\n\""), "bytes", "[0, 10, 34]", ['b"\\0\\n\\""']), V("bytes:" + hx("é"), "bytes", "[195, 169]", ['b"\\xC3\\xA9"']),
            V("bytes:" + hx("y" * 300), "bytes", "[" + ", ".join(["121"] * 300) + "]", ['b"' + "y" * 300 + '"']),
            V("byte:0", "byte", "0", ["b'\\x00'"]), V("byte:255", "byte", "255", ["b'\\xff'"]), V("byte:39", "byte", "39", ["b'\\''"]), V("byte:92", "byte", "92", ["b'\\\\'"]),
            V("float:1e300", "float", "1e300", ["1" + "0" * 300 + ".0"]), V("float:5e-324", "float", "5e-324", ["0." + "0" * 323 + "5"]), V("float:0.0", "float", "0.0", ["0.0"]), V("float:-1e20", "float", "-1e20", ["-", "1" + "0" * 20 + ".0"]), V("float:0.1", "float", "0.1", ["0.1"]),
            V("uint:0", "uint", "0", ["0"], iu, "uint"), V("uint:9223372036854775808", "uint", "9223372036854775808", ["9223372036854775808"], u, "uint"), V("int:-1", "int", "-1", ["-", "1"], i, "int"), V("int:2147483648", "int", "2147483648", ["2147483648"], iu, "uint"),
            V("word:été", "word", "été", ["été"]), V("word:_0", "word", "_0", ["_0"]), V("word:self", "word", "self", ["self"]), V("word:r#fn", "word", "r#fn", ["r#fn"], raw=True), V("word:r#été", "word", "r#été", ["r#été"], raw=True), V("word:" + "w" * 300, "word", "w" * 300, ["w" * 300])]
    return dict(vs), dict(more)
def sv(vs):
    # in the specification a word is its own spelling
    return {(k[5:] if k.startswith("word:") else k): {("def" if a == "def_" else a): b for a, b in x.items() if a not in ("show", "toks")} for k, x in vs.items()}
def key(vs, v): return v if v in vs else "word:" + v
def enc(v, ops, full, away): return "\t".join([v, ";".join(f"{o['o']},{o['a']},{o['l']}" for o in ops), "all" if full else "", "away" if away else ""])
num = lambda k: "num" if k in ("int", "uint") else k

ESC = dict(n=10, r=13, t=9, **{"0": 0, "\\": 92, "'": 39, '"': 34})
def meaning(t):
    """the kind of a token and what it denotes: how it is spelt is not the subject"""
    try:
        if t[0].isdigit(): return ("float", float(t)) if "." in t or "e" in t.lower() else ("int", int(t.replace("_", ""), 0 if t[:2] in ("0x", "0o", "0b") else 10))
        b = t[0] == "b"; q = t[b:]
        if q[:1] not in ("'", '"') or len(q) < 2 or q[-1] != q[0]: return t
        out, i, e = [], 1, len(q) - 1
        while i < e:
            c = q[i]; i += 1
            if c != "\\": out.append(ord(c)); continue
            c = q[i]; i += 1
            if c == "x": out.append(int(q[i:i + 2], 16)); i += 2
            elif c == "u": j = q.index("}", i); out.append(int(q[i + 1:j].replace("_", ""), 16)); i = j + 1
            else: out.append(ESC[c])
        return (b, q[0], tuple(out))
    except (ValueError, KeyError, IndexError): return t
def norm(vs, v, s):
    """what the code shows, in the terms of the specification; or what is not consistent"""
    x = vs[v]; o = s["obs"]; sid = v[5:] if v.startswith("word:") else v
    toks = []
    body = [t for t in o["toks"] if t[0] not in ("(", ")", "[", "]", "{", "}")]
    same = [meaning(t[0]) for t in body] == [meaning(t) for t in x["toks"]]
    names = ["-", sid] if x["neg"] else [sid]
    n = 0
    for t, l in o["toks"]:
        if t in ("(", ")", "[", "]", "{", "}"): toks.append(dict(t=t, l=l))
        else: toks.append(dict(t=names[n] if same else "?" + t, l=l)); n += 1
    if o["f"] in ("TT", "TS"): k, val = num(x["k"]), sid if same else "?"
    else: k, val = o["k"], sid if o["t"] == x["show"] else "?" + o["t"]
    ls = sorted(set(o["ls"]))
    if o["f"] == "TS" and o["ls"] == [1, 2]: ls = [6]
    bad = None
    if len(ls) > 1: bad = f"the ways to ask for the location disagree: {o['ls']}"
    l = ls[0] if ls else 0
    for d, a, b in o["gs"]:
        if a != b: bad = "the delimiters, borrowed and taken out, have different locations"
    return dict(ok=s["ok"], at=s["at"], obs=dict(f=o["f"], k=k, v=val, l=l, gs=[dict(d=d, l=a) for d, a, _ in o["gs"]], toks=toks, sp=o["sp"])), bad

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 29)
    exe = build("chkcarry", {"main.rs": MAIN})
    vs, more = values(); ls = [2, 3] if thorough() else [2]
    vs |= more
    if thorough():
        for x in vs.values(): x["maxg"] = 2
    else:
        for k, x in vs.items():
            if x["maxg"] == 2 and k != "int:-5": x["maxg"] = rng.choice([1, 2])
    outs, stt = tlc("MCCarry", dict(CARRY_JSON=jsonfile(dict(vs=sv(vs), ls=ls), "C29-mc.json"))); rep.states(stt)
    log(f"C29: TLC enumerated {len(outs)} steps, {stt['distinct']} states")
    lines = [enc(key(vs, o["v"]), o["hist"], False, o["away"]) for o in outs]
    ans = Run(exe).all(lines)
    for o, l, a in zip(outs, lines, ans):
        if a["r"] != "ok": rep.violation(f"no answer: {a}", history=l); continue
        got, bad = norm(vs, key(vs, o["v"]), a["steps"][-1])
        want = dict(ok=o["ok"], at=o["at"], obs=o["obs"])
        if bad: rep.violation(bad, history=l, got=a["steps"][-1])
        elif got != want: rep.violation(f"after {o['hist'][-1]['o']}: the value or its location is not what it was given", history=l, expected=want, got=got)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["steps_replayed"] = len(ans); rep.cov["values"] = len(vs)
    for l in rng.sample(lines, 3): rep.sample(dict(direction="spec->code", history=l))
    # recordings: long histories of what is possible, chosen at random
    hs = []
    for _ in range(1500 if thorough() else 400):
        v = rng.choice(list(vs)); away = vs[v]["k"] == "pair" or vs[v]["neg"] and rng.random() < .5
        hs.append((v, away, walk(vs[v], v, away, rng, rng.choice([5, 20, 60]))))
    lines = [enc(v, ops, True, away) for v, away, ops in hs]
    ans = Run(exe).all(lines)
    recs, idx = [], []
    for i, ((v, away, ops), a) in enumerate(zip(hs, ans)):
        if a["r"] != "ok": rep.violation(f"a history does not complete: {a}", history=lines[i]); continue
        steps = []
        for op, s in zip(ops, a["steps"]):
            got, bad = norm(vs, v, s)
            if bad: rep.violation(bad, history=lines[i], got=s)
            steps.append(dict(op=op, **got))
        recs.append(dict(v=v[5:] if v.startswith("word:") else v, away=away, steps=steps)); idx.append(i)
    outs, stt = tlc("CarryTrace", dict(CARRY_JSON=jsonfile(dict(vs=sv(vs), ls=[1, 2, 3, 4], recs=recs), "C29-tr.json"))); rep.states(stt)
    if {o["rec"] for o in outs} != set(range(1, len(recs) + 1)): raise ToolError("TLC did not judge all recordings")
    for o in outs:
        if not o["ok"]:
            i = idx[o["rec"] - 1]
            rep.violation(f"recorded history rejected at step {o['at']}", history=lines[i], step=o["at"], allowed=o["want"], got=ans[i]["steps"][o["at"] - 1])
    rep.traces(len(recs)); rep.cov["recordings_validated"] = len(recs); rep.cov["longest_recording"] = max(len(h[2]) for h in hs)
    rep.sample(dict(direction="code->spec", history=lines[0][:300]))
    return rep

def walk(x, v, away, rng, n):
    """a random history; it follows the forms itself, the specification judges"""
    w = x["k"] == "word"; sp = v[5:]
    f, k, gs = ("W" if w else "P"), x["k"], 0
    if away: f, k = "PR" if k == "pair" else "TS", num(k)
    ops = []
    while len(ops) < n:
        def o(name, a="", l=0): return dict(o=name, a=a, l=l)
        L = rng.randint(1, 4); d = rng.choice("([{")
        c = [o("clone")]
        if gs: c += [o("regrp", "", L), o("ungrp"), o("ungrp"), o("grp", d), o("grpat", d, L)] + ([o("iset", "", L)] if gs == 1 and f != "PR" else [])
        else:
            if f in ("P", "L", "S", "SL", "TT", "CI", "W", "ID", "KW"): c += [o("set", "", L)]
            if f not in ("TS", "RAW", "PR"): c += [o("ts")]
            if f in ("P", "L", "S", "SL", "CI", "W", "ID", "KW", "PR"): c += [o("grp", d), o("grpat", d, L)]
            if f in ("P", "KW") or f == "W" and not x["raw"]: c += [o("new", "", L)]
            if f == "KW": c += [o("dflt"), o("tt"), o("token")]
            if f == "P": c += [o("raw"), o("lit"), o("syn"), o("token"), o("tt")] * 2
            if f == "L": c += [o("unlit"), o("syn")] * 2
            if f == "RAW": c = [o("from"), o("lit")]
            if f == "S": c += [o("up"), o("own", rng.choice(["int", "uint"]) if k == "num" else k)] * 2
            if f == "SL": c += [o("down"), o("any")] * 2
            if f in ("CI", "W"): c += [o("token"), o("id")] * 2
            if f == "ID": c += [o("ci"), o("w"), o("tt")] * 2
            if f == "TT" and w: c += [o("id")] * 2
            if f == "TS":
                c += [o("parse", rng.choice(["CI", "W", "foo", "if"] if w else ["L", "SL", rng.choice(["int", "uint"]) if k == "num" else k]))] * 3
                if not x["neg"]: c += [o("one")]
        p = rng.choice(c); ops.append(p); n_ = p["o"]; a = p["a"]
        if n_ in ("own", "parse") and a in ("int", "uint"):
            if a in x["kinds"]: f, k = "P", a
        elif n_ in ("own",): f = "P"
        elif n_ == "parse":
            if a in ("L", "SL"): f = a; k = (x["def_"] if a == "L" else num(k)) if k == "num" else k
            elif a == "W": f = "W"
            elif a == "CI": f = f if x["kw"] else "CI"
            elif a in ("foo", "if"): f = "KW" if sp == a else f
            else: f = "P"
        elif n_ == "raw": f = "RAW"
        elif n_ in ("from", "unlit"): f = "P"
        elif n_ == "lit": f = "L"
        elif n_ == "syn": f = "S" if f == "P" else "SL"; k = num(k)
        elif n_ == "any": f = "L"; k = x["def_"] if k == "num" else k
        elif n_ == "up": f = "SL"
        elif n_ == "down": f = "S"
        elif n_ == "token": f = "ID" if w else "TT"; k = num(k)
        elif n_ in ("tt", "ts", "one"): f = "TS" if n_ == "ts" else "TT"; k = num(k)
        elif n_ == "id": f = "ID"
        elif n_ == "ci": f = f if x["kw"] else "CI"
        elif n_ == "w": f = "W"
        elif n_ in ("grp", "grpat"): gs += 1
        elif n_ == "ungrp": gs -= 1
    return ops
