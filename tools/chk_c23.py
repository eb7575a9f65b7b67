"""C23: equality, ordering, hashing; decided with the Eqv specification."""
import random
from core import *
LIB = open(os.path.join(HERE, "eqvlib.rs")).read()

# ---- leaves: content and spellings
SPELL = {}
def key(c): return json.dumps(c, sort_keys=True)
def leaf(k, v, *spell):
    c = dict(k=k, v=v, cs=[]); SPELL.setdefault(key(c), []).extend(x for x in spell if x not in SPELL.get(key(c), [])); return c
def num(n, *spell):
    return leaf("num", [(n > 0) - (n < 0)] + ([] if n == 0 else [int(d) for d in str(abs(n))]), *spell)
def codes(x): return [ord(c) for c in x]
def word(w): return leaf("word", codes(w), w)
def tok(t): return leaf("tok", codes(t), t)

def num_like(tag, n, *spell):
    """numbers of different types have separate spellings"""
    c = num(n); NUMSPELL[(tag, key(c))] = list(spell); return c
NUMSPELL = {}
BOOL = [num_like("bool", 0, "false"), num_like("bool", 1, "true")]
BYTE = [num_like("byte", n, *s) for n, s in ((0, ["b'\\0'", "b'\\x00'"]), (10, ["b'\\n'", "b'\\x0a'", "b'\\x0A'"]), (65, ["b'A'", "b'\\x41'"]), (97, ["b'a'", "b'\\x61'"]), (127, ["b'\\x7f'"]), (128, ["b'\\x80'"]), (255, ["b'\\xff'", "b'\\xFF'"]))]
INT = [num_like("int", n, *s) for n, s in ((-2**63, ["-9223372036854775808", "- 0x8000_0000_0000_0000"]), (-300, ["-300", "-3_00"]), (-2, ["-2"]), (-1, ["-1", "- 1", "-0x1"]), (0, ["0", "-0", "0x0"]), (1, ["1", "0b1"]), (2, ["2"]), (10, ["10", "0xa"]), (300, ["300"]), (2**63 - 1, ["9223372036854775807"]))]
UINT = [num_like("uint", n, *s) for n, s in ((0, ["0", "0x0", "00"]), (1, ["1", "0b1", "1u8"]), (2, ["2"]), (9, ["9"]), (10, ["10", "0xa", "1_0"]), (255, ["255", "0xFF", "0xff"]), (2**31, ["2147483648"]), (2**63 - 1, ["9223372036854775807"]), (2**63, ["9223372036854775808"]), (2**64 - 1, ["18446744073709551615", "0xffff_ffff_ffff_ffff"]))]
FLOAT = [num_like("float", n, *s) for n, s in ((-10**12, ["-1e9", "-1000000000.0"]), (-1500, ["-1.5", "- 1.50"]), (-1, ["-0.001", "-1e-3"]), (0, ["0.0", "-0.0", "0e5", "1e-999"]), (1, ["0.001"]), (250, ["0.25", "2.5e-1"]), (1000, ["1.0", "1e0", "1."]), (2000, ["2.0"]), (10000, ["10.0", "1e1"]), (2 * 10**12, ["2e9"]))]
CHAR = [num_like("char", n, *s) for n, s in ((0, ["'\\0'"]), (10, ["'\\n'", "'\\x0a'"]), (65, ["'A'", "'\\x41'", "'\\u{41}'"]), (97, ["'a'"]), (233, ["'\u00e9'", "'\\u{e9}'"]), (0xffff, ["'\\u{ffff}'"]), (0x10000, ["'\\u{10000}'"]), (0x1f600, ["'\U0001f600'", "'\\u{1F600}'"]))]
STR = [leaf("str", codes(v), *s) for v, s in (("", ['""', 'r""']), ("a", ['"a"', '"\\x61"', 'r#"a"#']), ("A", ['"A"']), ("ab", ['"ab"', '"a\\\n   b"']), ("b", ['"b"']), ("\n", ['"\\n"', '"\n"']), ("\u00e9", ['"\u00e9"', '"\\u{e9}"']), ("e\u0301", ['"e\u0301"']), ("\uffff", ['"\\u{ffff}"']), ("\U00010000", ['"\\u{10000}"']), ("a\0", ['"a\\0"']))]
BSTR = [leaf("bytes", list(v), *s) for v, s in ((b"", ['b""']), (b"a", ['b"a"', 'b"\\x61"', 'br"a"']), (b"A", ['b"A"']), (b"ab", ['b"ab"']), (b"\xff", ['b"\\xff"']), (b"\x7f", ['b"\\x7f"']), (b"\x80", ['b"\\x80"']), (b"a\0", ['b"a\\0"', 'b"a\\x00"']), (b"b", ['b"b"']))]
WORDS = [word(w) for w in ("A", "B", "_", "a", "ab", "b", "fn", "r#a", "r#fn", "r#ab", "r", "\u00e9", "self", "a1", "a_")]
def named(t): return dict(k="named", v=[], cs=[t])
LITS = [leaf("lit:" + k, v, *s) for k, v, s in (("Bool", [1], ["true"]), ("Bool", [0], ["false"]), ("Byte", [1], ["b'\\x01'"]), ("Int", [-1], ["-1", "- 1"]), ("Int", [-2], ["-2"]), ("Uint", [1], ["1", "0x1"]), ("Uint", [0], ["0", "-0"]), ("Float", [1], ["1.0", "1e0"]), ("Float", [0], ["0.0", "-0.0"]), ("Float", [-1], ["-1.0"]),
        ("Char", [97], ["'a'", "'\\x61'"]), ("Char", [1], ["'\\x01'"]), ("Str", [97], ['"a"', 'r"a"']), ("Str", [], ['""']), ("ByteStr", [97], ['b"a"']), ("ByteStr", [], ['b""']))]
def L(u): return dict(k="leaf", n=0, u=u, sub=[])
def G(k, n, *sub): return dict(k=k, n=n, u=[], sub=list(sub))
PLUS, MINUS, COMMA, EQ = tok("+"), tok("-"), tok(","), tok("=")
W2, W3 = L([word("a"), word("b")]), L([word("a"), word("b"), word("r#a")])
OPS = G("either", 0, L([PLUS]), L([MINUS]))
NO = "|_, _, _, _, _| {}"
def PL(raw, borrowed=None):
    s = f"|x, y, _, c, o| {{ plain::<_, {raw}>(x, &y.value(), c, o); dflt::<_, {raw}>(x, o); "
    if borrowed: s += f"plain::<_, {borrowed}>(x, &y.value()[..], c, o);"
    return s + " }"
WD = "|x, y, eq, _, o| word(x, y, eq, o)"
KW = [("A", "fn"), ("B", "let"), ("C", "yes"), ("D", "a"), ("D", "b"), ("D", "r#fn")]

# name, shape, ordered, rust type, plain comparisons, kind of numbers in leaves
TYPES = [
    ("bool", L(BOOL), True, "LitBool", PL("bool")), ("byte", L(BYTE), True, "LitByte", PL("u8")), ("int", L(INT), True, "LitInt", PL("i64")), ("uint", L(UINT), True, "LitUint", PL("u64")),
    ("float", L(FLOAT), True, "LitFloat", PL("NotNan<f64>")), ("char", L(CHAR), True, "LitChar", PL("char")), ("str", L(STR), True, "LitStr", PL("String", "str")), ("bytes", L(BSTR), True, "LitByteStr", PL("Vec<u8>", "[u8]")),
    ("lit", L(LITS), False, "Lit", NO), ("word", L(WORDS), True, "Word", WD), ("kwplain", L(WORDS), True, "Word", "|x, y, _, c, o| keywords(x, y, c, o)"), ("kwident", L([w for w in WORDS if w["v"] != codes("fn")]), True, "CustomIdent<kws::Keywords>", WD),
    ("empty", G("mark", 0), True, "Empty", NO), ("eof", G("mark", 0), True, "Eof", NO),
    ("paren", G("group", 0, L(WORDS[:5])), False, "Paren<Word>", NO), ("bracket", G("group", 0, G("any", 2, W2)), False, "Bracket<Any<Word>>", NO), ("brace", G("group", 0, G("group", 0, L(LITS[3:7]))), False, "Brace<Paren<Lit>>", NO),
    ("maybe", G("maybe", 0, L([EQ]), W3), False, "Maybe<Token![=], Word>", NO), ("maybe1", G("maybe", 0, W3, G("mark", 0)), False, "Maybe<Word>", NO),
    ("maybe2", G("maybe", 0, OPS, G("maybe", 0, L([EQ]), W2)), False, "Maybe<Op, Maybe<Token![=], Word>>", NO),
    ("any", G("any", 3, W3), False, "Any<Word>", NO), ("anyany", G("any", 3, G("group", 0, G("any", 1, W2))), False, "Any<Paren<Any<Word>>>", NO),
    ("punct", G("punct", 3, W2, L([COMMA])), False, "Punctuated<Word, Token![,]>", NO), ("punct2", G("punct", 2, W3, OPS), False, "Punctuated<Word, Op>", NO),
    ("sep", G("sep", 3, W2, OPS), False, "Separated<Word, Op>", NO), ("left", G("left", 3, W2, OPS), False, "LeftAssoc<Op, Word>", '|x, y, eq, _, o| if let LeftAssoc::Rhs(r) = x { if (LeftAssoc::from(r.clone()) == *y) != eq { o.push("the chain made of a single operand".into()) } }'), ("right", G("right", 3, W2, OPS), False, "RightAssoc<Op, Word>", '|x, y, eq, _, o| if let RightAssoc::Lhs(r) = x { if (RightAssoc::from(r.clone()) == *y) != eq { o.push("the chain made of a single operand".into()) } }'),
    ("either", G("either", 0, G("group", 0, W3), L(STR[:5])), False, "Either<Paren<Word>, LitStr>", NO), ("eitherord", G("either", 0, L(WORDS[:5]), L(STR)), True, "Either<Word, LitStr>", NO),
    ("eitherord2", G("either", 0, G("either", 0, L(CHAR[1:6]), L(STR[:5])), L(WORDS[:4])), True, "Either<Either<LitChar, LitStr>, Word>", NO),
    ("box", G("box", 0, G("sep", 2, W2, OPS)), False, "Box<Separated<Word, Op>>", NO), ("two", G("seq", 0, W2, G("maybe", 0, L([EQ]), L(LITS[:6]))), False, "Two", NO),
    ("kw", L([leaf("kw" + a, codes(b), b) for a, b in KW]), False, "Kw", NO),
]
NUMTAG = {"bool": "bool", "byte": "byte", "int": "int", "uint": "uint", "float": "float", "char": "char", "eitherord2": "char"}
DELIM = dict(paren=["()"], bracket=["[]"], brace=["{}", "()"], anyany=["()"], either=["()"])

def render(name, c, rng):
    """a text of the content"""
    d = iter(DELIM.get(name, []))
    out = []
    def go(c, depth=0):
        if c["k"] == "group":
            a, b = (DELIM[name] + DELIM[name][-1:] * 9)[depth]
            out.append(a); [go(x, depth + 1) for x in c["cs"]]; out.append(b)
        elif c["cs"]: [go(x, depth) for x in c["cs"]]
        elif c["k"] in ("none", "any", "mark", "punct"): pass
        else:
            sp = NUMSPELL.get((NUMTAG.get(name), key(c))) or SPELL[key(c)]
            out.append(rng.choice(sp))
    go(c)
    ws = [" ", "\n", "  ", "\t", " /* \u00e9 */ ", "\n\n   "]
    return rng.choice(["", "", "\n", "   "]) + "".join(x + rng.choice(ws) for x in out)

# ---- contents far larger than those enumerated: pairs that differ in one place, or nowhere
SIZES = [5, 9, 17, 33, 64, 65, 129, 255, 256, 257, 300]
class Pick:
    """the choices a content is made of; the same ones again, but for one, make a near miss"""
    def __init__(self, rng): self.rng, self.xs, self.i = rng, [], 0
    def __call__(self):
        if self.i == len(self.xs): self.xs.append(self.rng.random())
        self.i += 1; return self.xs[self.i - 1]
    def of(self, xs): return xs[int(self() * len(xs))]
    def again(self):
        p = Pick(self.rng); p.xs = list(self.xs); k = self.i
        x = self.rng.random()
        if x < .75 and k: p.xs[self.rng.choice([k - 1, self.rng.randrange(k), self.rng.randrange(k)])] = self.rng.random()
        return p
ALPH = ["a", "b", "Z", "0", "_"]
def large(name, sh, pk, top=True):
    """a content of the type (or one of its parts), with its spellings registered"""
    k = sh["k"]; sub = sh["sub"]
    def n(hi=300):
        x = pk(); return [v for v in SIZES if v <= hi][int(x * len([v for v in SIZES if v <= hi]))] + int(pk() * 2)
    if k == "leaf":
        if not top or name in ("bool", "kw", "kwplain", "lit", "either"): return pk.of(sh["u"])
        if name in ("str", "eitherord"):
            al = ALPH + ["\u00e9", "\n", "\0", "\U0001f600", "\uffff", " "]
            v = [pk.of(al) for _ in range(n())]
            return leaf("str", [ord(c) for c in v], '"' + "".join({"\n": "\\n", "\0": "\\0"}.get(c, c) for c in v) + '"', '"' + "".join("\\u{%x}" % ord(c) if c != "a" else c for c in v) + '"')
        if name == "bytes":
            v = [pk.of([0, 10, 65, 97, 98, 127, 128, 200, 255]) for _ in range(n())]
            return leaf("bytes", v, 'b"' + "".join("\\x%02x" % c for c in v) + '"', 'b"' + "".join(chr(c) if 65 <= c < 99 else "\\x%02X" % c for c in v) + '"')
        if name in ("word", "kwident"): return word("w" + "".join(pk.of(ALPH) for _ in range(n())))
        if name == "char":
            c = int(pk() * 0x10f000) + int(pk() * 0x1000); c = c if not 0xd800 <= c < 0xe000 else 0xe000
            return num_like("char", c, "'\\u{%x}'" % c, "'\\u{%06X}'" % c)
        if name in ("int", "uint"):
            x = 0
            for _ in range(63 if name == "int" else 64): x = 2 * x + (pk() < .5)
            x >>= pk.of([0, 0, 0, 1, 9, 30, 50])
            if name == "int" and pk() < .5: x = -x
            s = ("-" if x < 0 else "")
            return num_like(name, x, s + str(abs(x)), s + hex(abs(x)), s + "_".join(bin(abs(x))[2:]).join(["0b", ""]))
        if name == "float":
            x = 0
            for _ in range(15): x = 10 * x + int(pk() * 10)
            x //= 10 ** int(pk() * 14)
            s = ""
            if pk() < .5 and x: x, s = -x, "-"
            y = abs(x)
            return num_like("float", x, f"{s}{y // 1000}.{y % 1000:03d}", f"{s}{y}e-3", f"{s}{y}0.00E-4")
        if name == "byte": return pk.of(sh["u"])
        return pk.of(sh["u"])
    sb = lambda i, top=False: large(name, sub[i], pk, top)
    if k == "mark": return dict(k="mark", v=[], cs=[])
    if k == "group": return dict(k="group", v=[], cs=[sb(0)])
    if k == "box": return sb(0)
    if k == "maybe": return dict(k="none", v=[], cs=[]) if pk() < .1 else dict(k="some", v=[], cs=[sb(0), sb(1)])
    if k == "any": return dict(k="any", v=[], cs=[sb(0) for _ in range(n() if name != "anyany" else n(17))])
    if k == "either":
        if pk() < .3 and name == "eitherord": return dict(k="R", v=[], cs=[large(name, sub[1], pk, True)])
        return dict(k="L", v=[], cs=[sb(0)]) if pk() < .5 else dict(k="R", v=[], cs=[sb(1)])
    if k == "seq": return dict(k="seq", v=[], cs=[sb(0), sb(1)])
    m = n(300 if k in ("punct", "sep") else 33)
    xs, os = [], []
    for _ in range(m): xs.append(sb(0)); os.append(sb(1))
    if k == "sep": cs = [c for p in zip(xs, os) for c in p]; return dict(k="sep", v=[], cs=cs[:-1])
    if k == "punct": cs = [c for p in zip(xs, os) for c in p]; return dict(k="punct", v=[], cs=cs if pk() < .3 else cs[:-1])
    if k == "left":
        t = dict(k="lr", v=[], cs=[xs[0]])
        for o, x in zip(os, xs[1:]): t = dict(k="lb", v=[], cs=[t, o, x])
        return t
    t = dict(k="rl", v=[], cs=[xs[-1]])
    for x, o in list(zip(xs, os))[-2::-1]: t = dict(k="rb", v=[], cs=[x, o, t])
    return t
def given(name, sh, rng, n):
    out = []
    for _ in range(n):
        p = Pick(rng); x = large(name, sh, p); y = large(name, sh, p.again())
        out.append([x, y])
    return out

def shape_for(t): return t
def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 23)
    small = {}
    def few(sh):
        """some contents for the histories: the first ones of the leaves"""
        return None
    types = []
    for name, sh, o, ty, pl in TYPES: types.append(dict(name=name, shape=sh, ord=o, few=[], ops=0, given=given(name, sh, rng, 60 if thorough() else 16)))
    src = LIB + "fn dispatch(f: &[&str]) -> String { match f[1] {\n" + "\n".join(f'"{n}" => run!(f, {ty}, {"yes" if o else "no"}, {pl}),' for n, _, o, ty, pl in TYPES) + "\n_ => String::new() } }\nfn main() { serve(dispatch) }\n"
    exe = build("chkeqv", {"main.rs": src})
    # pairs
    outs, st = tlc("MCEqv", dict(EQV_JSON=jsonfile(dict(types=types), "C23-mc.json"))); rep.states(st)
    pairs = [o for o in outs if o["k"] == "pair"]
    univ = {}
    rep.cov["large_pairs"] = sum(len(t["given"]) for t in types)
    for o in pairs: univ.setdefault(o["ty"], {}).setdefault(key(o["x"]), o["x"])
    lines, meta = [], []
    for o in pairs:
        name = TYPES[o["ty"] - 1][0]
        for _ in range(2 if o["eq"] else 1):
            tx, ty = render(name, o["x"], rng), render(name, o["y"], rng)
            lines.append(f"P\t{name}\t{tx.encode().hex()}\t{ty.encode().hex()}\t{int(o['eq'])}\t{o['cmp']}"); meta.append((name, tx, ty, o))
    ans = Run(exe).all(lines)
    for (name, tx, ty, o), a in zip(meta, ans):
        why = f"no answer: {a}" if a["r"] != "ok" else a["odd"] and f"{a['odd'][0]} is wrong" or None
        if why: rep.violation(f"{why} for {'equal' if o['eq'] else 'different'} nodes of {name}", x=tx, y=ty, cmp=o["cmp"], got=a)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["pairs_compared"] = len(ans); rep.cov["types"] = len(TYPES); rep.cov["contents"] = sum(map(len, univ.values()))
    log(f"C23: {len(ans)} pairs compared")
    # histories of collections
    for i, t in enumerate(types, 1):
        big = {key(c) for p in t["given"] for c in p}; us = [c for k, c in univ[i].items() if k not in big] or list(univ[i].values()); t["few"] = rng.sample(us, min(3, len(us))); t["ops"] = 4 if thorough() else 3
        t["shape"] = L([]); t["given"] = []       # no pairs this time
    outs, st = tlc("MCEqv", dict(EQV_JSON=jsonfile(dict(types=types), "C23-mc2.json"))); rep.states(st)
    hs = [o for o in outs if o["k"] == "hist"]
    lines = []
    def opline(i, ops):
        n = TYPES[i - 1][0]
        return f"H\t{n}\t" + ";".join(h["op"][0] + render(n, h["c"], rng).encode().hex() for h in ops)
    lines = [opline(o["ty"], o["hist"]) for o in hs]
    ans = Run(exe).all(lines)
    for o, l, a in zip(hs, lines, ans):
        n = TYPES[o["ty"] - 1][0]
        if a["r"] != "ok": why = f"no answer: {a}"
        elif a["odd"]: why = a["odd"][0]
        elif a["res"] != [h["r"] == "old" for h in o["hist"]] or a["n"] != o["n"]: why = "a collection answers otherwise"
        elif TYPES[o["ty"] - 1][2] and [o["hist"][k]["c"] for k in a["sorted"]] != o["sorted"]: why = "an ordered collection has another order"
        else: continue
        rep.violation(f"{why} ({n})", history=o["hist"], texts=[unhexs(x) for x in l.split("\t")[2].split(";")], got=a)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["histories_replayed"] = len(ans)
    log(f"C23: {len(ans)} histories replayed")
    for o in rng.sample(hs, 2): rep.sample(dict(direction="spec->code", type=TYPES[o["ty"] - 1][0], history=[[h["op"], key(h["c"]), h["r"]] for h in o["hist"]]))
    # recordings
    recs, lines = [], []
    for _ in range(600 if thorough() else 150):
        i = rng.randrange(1, len(TYPES) + 1); us = list(univ[i].values()); us = rng.sample(us, min(len(us), rng.choice([3, 10, 40])))
        ops = [dict(op=rng.choice(["insert", "insert", "remove", "find"]), c=rng.choice(us)) for _ in range(rng.choice([5, 20, 80]))]
        recs.append(dict(ty=i, ops=ops)); lines.append(opline(i, ops))
    ans = Run(exe).all(lines)
    good = []
    for r, a in zip(recs, ans):
        if a["r"] != "ok" or a["odd"]: rep.violation(f"a long history: {a.get('odd') or a}", type=TYPES[r["ty"] - 1][0]); continue
        for h, b in zip(r["ops"], a["res"]): h["r"] = "old" if b else "new"
        r["n"] = a["n"]; r["sorted"] = [r["ops"][k]["c"] for k in a["sorted"]]; good.append(r)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    outs, st = tlc("EqvTrace", dict(EQV_JSON=jsonfile(dict(types=types, recs=good), "C23-tr.json"))); rep.states(st)
    if len(outs) != len(good): raise ToolError("TLC did not judge all recordings")
    for o in outs:
        if not o["ok"]: rep.violation("a recorded history of a collection is rejected", type=TYPES[good[o["rec"] - 1]["ty"] - 1][0], at=o["bad"], ops=good[o["rec"] - 1]["ops"][:o["bad"]])
    rep.traces(len(good)); rep.cov["recordings_validated"] = len(good); rep.cov["recorded_operations"] = sum(len(r["ops"]) for r in good)
    return rep
def unhexs(x): return x[:1] + " " + bytes.fromhex(x[1:]).decode()
