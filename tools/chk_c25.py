"""C25: the textual entry points (Entry) and the quoting macros (Quote)."""
import random
from core import *
from gram import *
from peg import *
from effort import fit
import catalog, fmtlib
from catalog import V, VN, T, st, sn, a, b, c

LIB = open(os.path.join(HERE, "entlib.rs")).read()

def table(grams, extra=()):
    t = toks_of(grams, extra)
    # operators are printed joined to each other, and alone at the end
    for n in list(t):
        if t[n]["k"] == "punct" and len(n) == 1: t.setdefault(n + "~", tokinfo(n + "~"))
        elif len(n) == 2 and n[1] == "~": t.setdefault(n[0], tokinfo(n[0]))
    for n, d in t.items():
        d["x"] = toktext(n); d["n"] = len(toktext(n))
        d["b"] = toktext(n) if d["k"] == "punct" else n
        d["jn"] = toktext(n) + "~" if d["k"] == "punct" else n
    return t

# ---------------------------------------------------------------- readings
BAD = ['!!"', "!!\\", "!!)", "!!/*", "!!`", "!!\u00a7"]
def families():
    """every type that can be read from and shown as a string"""
    COM, SEMI = P(","), P(";")
    f = [Gram([], a, ["a", "b", "fn", "!!)"], 3), Gram([], ("ci", "a", "b"), ["a", "c", "fn", "r#a", "!!`"], 3),
         Gram([], EMPTY, ["a", "(", "!!\\"], 3), Gram([], EOF, ["a", "(", "!!\\"], 3), Gram([], NOTEOF, ["a", "(", "!!\\"], 3),
         Gram([], maybe(a), ["a", ",", '!!"'], 4), Gram([], maybe(COM, par(WORD)), ["a", ",", "("], 5),
         Gram([], par(any_(a)), ["a", "b", "(", "!!)"], 5), Gram([], grp("[", punct(WORD, COM)), ["a", ",", "["], 6),
         Gram([], grp("{", any_(either(SEMI, WORD))), ["a", ";", "{"], 6), Gram([], grp("{", grp("[", par(maybe(a)))), ["a", "{", "[", "("], 7),
         Gram([], punct(WORD, COM), ["a", "fn", ",", "!!/*"], 5), Gram([], punct(par(EMPTY), SEMI), ["(", ";", "a"], 6), Gram([], many(WORD), ["a", "fn", ","], 5),
         Gram([], sep(IDENT, COM), ["a", "fn", ",", "!!`"], 5), Gram([], sep(grp("{", maybe(a)), P("::")), ["a", "{", ":~", ":"], 7),
         Gram([], any_(either(a, grp("[", any_(b)))), ["a", "b", "["], 6), Gram([], left(P("+"), a), ["a", "+", '!!"'], 6), Gram([], left(P("=="), par(WORD)), ["a", "=~", "=", "("], 8),
         Gram([], right(P("="), WORD), ["a", "=", "fn"], 6), Gram([], right(COM, grp("{", any_(a))), ["a", ",", "{"], 7),
         Gram([], either(grp("{", WORD), maybe(b)), ["a", "b", "{"], 5), Gram([], either(any_(grp("[", a)), punct(b, COM)), ["a", "b", "[", ","], 6),
         Gram([], either(either(a, ("ci", "b")), maybe(b, a)), ["a", "b", "c", "!!)"], 4),
         Gram([], LIT("Lit"), ["1", "2.5", "'c'", "a", "true", "b'c'", "("], 3),
         Gram([], LIT("LitStr"), ['"s"', "1", '"a b, c; {"', '"\\n"'], 2), Gram([], LIT("LitChar"), ["'c'", "'\\n'", '"s"'], 2), Gram([], LIT("LitByteStr"), ['b"s"', '"s"'], 2),
         Gram([], LIT("LitBool"), ["true", "false", "a"], 2), Gram([], LIT("LitInt"), ["1", "42", "2.5"], 2), Gram([], LIT("LitUint"), ["1", "42", "-"], 3), Gram([], LIT("LitFloat"), ["2.5", "1", "0.25"], 2), Gram([], LIT("LitByte"), ["b'c'", "'c'"], 2),
         # derived: structs and enums of every style, recursive ones
         Gram([S("Unit", "unit", [])], R("Unit"), ["a", "!!)"], 2), Gram([E("Void", [])], R("Void"), ["a", "!!)"], 2),
         Gram([sn("Top", x=a, y=COM, z=grp("{", punct(R("In"), SEMI))), st("In", WORD, maybe(P("->"), WORD))], R("Top"), ["a", ",", ";", "-~", ">", "{"], 7, 6),
         Gram([E("E", [V("A", a, grp("{", any_(R("E")))), VN("B", x=b, y=SEMI), V("C")])] and
              [E("E", [V("A", a, grp("{", any_(R("E")))), VN("B", x=b, y=SEMI)])], R("E"), ["a", "b", ";", "{"], 8, 7),
         Gram([sn("Top", f=("rkw", "fn"), n=IDENT, ps=par(punct(WORD, COM)), body=grp("{", any_(R("St")))), E("St", [V("E", IDENT, SEMI), V("Bl", grp("{", any_(R("St"))))])],
              R("Top"), ["fn", "a", ",", ";", "(", "{"], 8, 8),
         Gram([sn("Top", x=any_(either(P(","), P(";"))), y=P("..="), z=any_(either(P(","), par(EMPTY))))], R("Top"), [",", ";", ".~", "=", "("], 6, 6),
         Gram(catalog.deep_expr(), R("Expr"), ["x", "1", "+", "(", "[", "."], 4), Gram(catalog.json_gram(), R("Json"), ['"k"', ":", ",", "null", "{", "["], 6, 5)]
    return f

def main(grams, quotes):
    files = {"entlib.rs": LIB}
    out = ["#![allow(dead_code, unused_imports, unused_variables, non_snake_case, non_camel_case_types, unused_must_use)]", "mod entlib;", "use harness::*; use entlib::*;"]
    ea = []; qa = []
    for i, g in enumerate(grams):
        files[f"g{i}.rs"] = "#![allow(dead_code, unused_imports, non_snake_case)]\n" + g.rust()
        out.append(f"mod g{i};"); ea.append(f"{i} => entry::<g{i}::Start>(&unhex(f[2]), f[3]),")
    for i, q in enumerate(quotes):
        files[f"q{i // 40}.rs"] = files.get(f"q{i // 40}.rs", "use crate::entlib::*; use parsel::*; use parsel::ast::*;\n") + q.rust(i)
        qa.append(f"{i} => q{i // 40}::q{i}(&Fill::new(f[2], f[3])),")
    out += [f"mod q{k};" for k in range((len(quotes) + 39) // 40)]
    out.append("fn dispatch(f: &[&str]) -> String { let n: usize = f[1].parse().unwrap(); if f[0] == \"E\" { match n { " + " ".join(ea) + " _ => unreachable!() } } else { match n { " + " ".join(qa) + " _ => unreachable!() } } }")
    out.append("fn main() { serve(dispatch) }")
    files["main.rs"] = "\n".join(out)
    return files

# ---------------------------------------------------------------- quotations
def respace(w):
    """a joined character only where another one follows"""
    out = []
    for i, t in enumerate(w):
        n = w[i + 1] if i + 1 < len(w) else None
        if isinstance(t, str) and len(t) == 2 and t[1] == "~" and not (isinstance(n, str) and tokinfo(n)["k"] == "punct"): t = t[0]
        out.append(t)
    return out

class Hole:
    def __init__(self, node, rep, sep, typed): self.node, self.rep, self.sep, self.typed = node, rep, sep, typed

class Shaper(Sampler):
    """sentences in which some parts are left open"""
    def gen(self, k, depth, out, limit=4000):
        N = self.g.nodes[k-1]; r = self.rng
        if len(out) < 30 and depth < self.top and r.random() < self.p and sum(isinstance(t, Hole) for t in out) < 3 and self.ok(k):
            out.append(Hole(k, False, None, r.random() < .4 and k in self.g.expr)); return
        if N["op"] in ("any", "punct", "sep", "left", "right") and r.random() < self.p and sum(isinstance(t, Hole) for t in out) < 3 and self.ok(N["a"][0]):
            sp = []
            if N["op"] != "any":
                S = self.g.nodes[N["a"][1] - 1]
                sp = ptoks("".join(S["f"])) if S["op"] == "tok" and S["s"] == "punct" else []
            if len(sp) <= 1:      # quote! takes one token as the separator
                out.append(Hole(N["a"][0], True, sp, r.random() < .4 and N["a"][0] in self.g.expr))
                if N["op"] == "punct" and r.random() < .3 and sp: out += sp
                return
        super().gen(k, depth, out, limit)
    def ok(self, k): return self.g.nodes[k-1]["op"] not in ("empty", "eof", "noteof")

class Quotation:
    def __init__(self, gi, g, rng, plain=False):
        self.gi, self.g, self.rng = gi, g, rng
        s = Shaper(g, rng, big=2); s.p = 0 if plain else rng.choice([.1, .25, .5]); s.top = 99
        while True:
            self.items = s.sentence(rng.choice([2, 4, 6]), limit=30)
            if len(self.items) <= 24 and (plain or any(isinstance(t, Hole) for t in self.items)): break
        if rng.random() < .45: self.damage()
        self.items = respace(self.items)
        if rng.random() < .15 and not plain: self.items.insert(0 if rng.random() < .5 else len(self.items), Hole(g.startnode, False, None, False))
        self.holes = [t for t in self.items if isinstance(t, Hole)]
        big = rng.random() < .3
        self.pools = []
        for n, h in enumerate(self.holes):
            p = [self.piece(h, d) for d in (1, 3, 5, 5)]
            if not h.typed:
                p += [[], self.cut(self.piece(h, 3))] + [respace(s2.mutate(self.piece(h, 3))) for s2 in [Sampler(g, rng)] * 2]
            p = [list(x) for x in dict.fromkeys(tuple(x) for x in p)]
            self.pools.append(p if thorough() else rng.sample(p, min(len(p), 3)))
    def piece(self, h, d):
        out = []
        for _ in range(20):
            out = []; Sampler(self.g, self.rng, big=2).gen(h.node, d, out)
            if len(out) <= 25: break
        return respace(out)
    def cut(self, w):
        w = [t for t in w if t not in "()[]{}"]
        return respace(w[:-1])
    def damage(self):
        r = self.rng
        idx = [i for i, t in enumerate(self.items) if isinstance(t, str) and t not in "()[]{}"]
        al = [t for t in self.g.alpha if t not in "()[]{}"]
        k = r.random()
        if idx and k < .4: del self.items[r.choice(idx)]
        elif idx and k < .75: self.items[r.choice(idx)] = r.choice(al)
        else: self.items.insert(r.randint(0, len(self.items)), r.choice(al + WILD[:3]))
    def spec(self):
        items = []; n = 0
        for t in self.items:
            if isinstance(t, Hole):
                n += 1
                items.append(dict(k="rep" if t.rep else "hole", t="", h=n, sep=t.sep or []))
            else: items.append(dict(k="tok", t=t, h=0, sep=[]))
        return dict(g=self.gi + 1, items=items, holes=self.pools, order=["up", "down"] if len(self.holes) > 0 else ["up"], many=2, reqs=self.rng.sample(["call", "low", "mid", "high"], 4 if thorough() else 2))
    def rust(self, i):
        lets, body, n = [], [], 0
        for t in self.items:
            if isinstance(t, Hole):
                if t.typed:
                    nm = f"H{t.node}"; ty = f"crate::g{self.gi}::{nm}"
                    self.g.aliases = getattr(self.g, "aliases", {}); self.g.aliases[nm] = self.g.expr[t.node]
                    lets.append(f"let h{n} = f.{'all' if t.rep else 'one'}::<{ty}>({n});")
                else: lets.append(f"let h{n} = f.{'ts' if t.rep else 'ts1'}({n});")
                body.append(f"#(#h{n}){''.join(t.sep)}*" if t.rep else f"#h{n}"); n += 1
            else: body.append(toktext(t) + ("" if len(t) == 2 and t[1] == "~" else " "))
        b = "".join(x if x.endswith(" ") or len(x) == 1 and x not in "([{" else x + " " for x in body)
        ty = f"crate::g{self.gi}::Start"
        return f"""
pub fn q{i}(f: &Fill) -> String {{
    {' '.join(lets)}
    match f.req {{
        None => quoted::<{ty}>((|| Ok(try_parse_quote!{{ {b} }}))(), quote::quote!{{ {b} }}, || parse_quote!{{ {b} }}),
        Some(sp) => quoted::<{ty}>((|| Ok(try_parse_quote_spanned!{{ sp => {b} }}))(), quote::quote_spanned!{{ sp => {b} }}, || parse_quote_spanned!{{ sp => {b} }}),
    }}
}}
"""

LINE = dict(low=5, mid=15, high=200)
def line_of(h, p, ordr):
    n = 10 * h + p
    return n if ordr == "up" else 100 - n

def located(piece, line, indent=3):
    """text of a piece on that line, and the places of its tokens"""
    text = "\n" * (line - 1) + " " * indent; col = indent; pos = []
    for t in piece:
        s = toktext(t); pos.append(((line, col), (line, col + len(s))))
        text += s; col += len(s)
        if not (len(t) == 2 and t[1] == "~"): text += " "; col += 1
    return text, pos

def quote_case(o):
    """vector and expected places of the tokens"""
    pcs = [[located(p, line_of(h + 1, k + 1, o["ord"])) for k, p in enumerate(ps)] for h, ps in enumerate(o["fill"])]
    req = ""; span = None
    if o["req"] != "call":
        req = "\n" * (LINE[o["req"]] - 1) + "  wide"; l = LINE[o["req"]]; span = ((l, 2), (l, 6))
    pos = []
    for t, g in zip(o["w"], o["org"]):
        if g != [0]: pos.append(pcs[g[0] - 1][g[1] - 1][1][g[2] - 1])
        elif span:
            k = tokinfo(t)["k"]
            pos.append((span[0], (span[0][0], span[0][1] + 1)) if k == "open" else ((span[1][0], span[1][1] - 1), span[1]) if k == "close" else span)
        elif tokinfo(t)["k"] == "lit": pos.append(((1, 0), (1, len(toktext(t)))))
        else: pos.append(((1, 0), (1, 0)))
    holes = ";".join(",".join("x" + x[0].encode().hex() for x in ps) if ps else "," for ps in pcs)
    return f"Q\t{o['q'] - 1}\t{holes}\t{req.encode().hex()}", pos

def want(o, pos):
    """what the harness must answer, from the outcome of the specification"""
    def sp(i, j):
        if i == 0: return [1, 0, 1, 0]
        s, e = pos[i-1][0], pos[j-1][1]
        return [*s, *e]
    def val(v):
        if v["k"] == "tok": return ["tok", *sp(v["i"], v["j"])]
        if v["k"] == "group": return ["group", *sp(v["i"], v["j"]), val(v["c"][0])]
        return [v["k"], [val(x) for x in v["c"]]]
    out = o["out"]
    if out["ok"]: return dict(r="ok", d=val(out["v"]))
    er = out["er"]
    return dict(r="err", m="".join(f"error parsing {c}, caused by:\n" for c in er["ch"]) + er["msg"], s=sp(er["i"], er["j"]))

def mixed(o, v):
    """tokens of different origins in one leaf: it has no common location"""
    def src(i): return (o["org"][i-1][:2])
    bad = []
    def go(v):
        if v["k"] == "tok" and src(v["i"]) != src(v["j"]): bad.append(v)
        for x in v["c"]: go(x)
    go(v); return bool(bad)

def judge_quote(o, pos, a):
    if a["r"] != "ok": return f"no answer: {a}"
    # the tokens of the quotation itself
    got = [t[0] for t in a["toks"]]
    key = lambda ts: [t[0] if len(t) == 2 and t[1] == "~" else t for t in ts]
    if key(got) != key(o["w"]): return f"the quotation does not have the tokens of what was put into it: {got}, specified: {o['w']}"
    for t, p, g in zip(a["toks"], pos, o["org"]):
        if [*p[0], *p[1]] != t[1:]: raise ToolError(f"token {t} of the quotation is not at {p}")
    if "p2" in a: return "the macro does not give what parsing the quoted tokens gives"
    if "pq" in a: return "parse_quote! does not give what try_parse_quote! gives"
    w = want(o, pos); x = a["a"]
    if w["r"] != x["r"]: return "accepted, but must be rejected" if x["r"] == "ok" else "rejected, but must be accepted"
    if w["r"] == "ok":
        if not mixed(o, o["out"]["v"]) and w["d"] != x["d"]: return "wrong value or location"
    else:
        if w["m"] != x["m"]: return "wrong error message"
        if o["out"]["er"]["i"] == o["out"]["er"]["j"] or o["org"][o["out"]["er"]["i"]-1][:2] == o["org"][o["out"]["er"]["j"]-1][:2]:
            if w["s"] != x["s"]: return "wrong error location"
        elif w["s"][:2] != x["s"][:2]: return "wrong error location"
    return None

def quote_grams():
    """grammars quotations are made of (no # and no signed literals: the quotation itself would read them)"""
    COM = P(",")
    return [Gram([], punct(IDENT, COM), ["a", "b", "fn", ","]), Gram([], any_(WORD), ["a", "fn", "_"]),
            Gram([], sep(par(WORD), P("::")), ["a", ":~", ":", "("]), Gram([], left(P("+"), LIT("LitUint")), ["1", "42", "+"]), Gram([], right(P("="), WORD), ["a", "=", "fn"]),
            Gram([], maybe(P("->"), IDENT), ["-~", ">", "a", "-"]), Gram([], either(grp("{", any_(a)), grp("[", any_(b))), ["a", "b", "{", "["]),
            Gram([E("E", [V("A", a, b, c), V("B", a, COM, c), V("C", WORD, P("+"), par(any_(R("E")))), V("D", LIT("Lit"), P(";"))])], any_(R("E")), ["a", "b", "c", ",", "+", ";", '"s"', "1", "("]),
            Gram([E("E", [V("A", R("F"), P(";")), V("B", WORD, WORD, P("-")), V("C", grp("[", box(R("E"))))]), E("F", [V("X", a, b), V("Y", a, par(EMPTY))])], R("E"), ["a", "b", "c", ";", "-", "[", "("]),
            Gram([sn("Top", x=maybe(R("P2")), y=either(R("P2"), either(R("Q2"), WORD)), z=any_(P(";"))), st("P2", WORD, P("+"), WORD), st("Q2", WORD, P("+"), P("+"))], R("Top"), ["a", "b", "+", ";"]),
            Gram([sn("Top", f=("rkw", "fn"), n=IDENT, ps=par(punct(R("Arg"), COM)), body=grp("{", any_(R("St")))), sn("Arg", n=IDENT, colon=P(":"), ty=WORD),
                  E("St", [VN("Let", k=("rkw", "let"), x=IDENT, e=P("="), v=R("Ex"), s=P(";")), V("Do", R("Ex"), P(";")), V("Bl", grp("{", any_(R("St"))))]),
                  E("Ex", [V("Call", IDENT, par(punct(R("Ex"), COM))), V("N", LIT("LitUint")), V("S", LIT("LitStr")), V("I", IDENT)])], R("Top"),
                 ["fn", "let", "a", "b", ":", "=", ",", ";", "1", '"s"', "(", "{"]),
            Gram(catalog.deep_expr(), R("Expr"), ["x", "y", "1", "22", "+", "-", "*", "=", ".", ",", "(", "[", "{", ";"]), Gram(catalog.json_gram(), R("Json"), ['"k"', '"long"', ":", ",", "null", "1", "{", "["])]

# ---------------------------------------------------------------- the check
def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 25)
    fam = families()
    for _ in range(30 if thorough() else 8):
        g = catalog.random_gram(rng, ["ref", "maybe", "any", "punct", "sep", "left", "right", "grp", "either", "enum"], alpha=rng.choice([["a", "b", "+"], ["a", ",", ";"], ["x", "fn", "1"], ["a", "-", "-~", ">"]]))
        if g: g.max = g.mmax = 4 if thorough() else 3; fam.append(g)
    for g in fam:      # short texts of everything; longer ones are recorded below
        lim = 60000 if thorough() else 2500
        g.max = max(m for m in range(2, 10) if m == 2 or sum(len(g.alpha) ** k for k in range(m + 1)) <= lim or m <= 3 and not thorough() and len(g.alpha) ** m <= lim)
        g.mmax = g.max
    nent = len(fam)
    qg = quote_grams()
    for _ in range(20 if thorough() else 4):
        g = catalog.random_gram(rng, ["ref", "maybe", "any", "punct", "sep", "left", "right", "grp", "either", "enum"], alpha=rng.choice([["a", "b", "+"], ["a", ",", ";"], ["x", "fn", "1"]]))
        if g: qg.append(g)
    grams = fam + qg
    quotes = []
    for n in range(600 if thorough() else 160):
        gi = n % len(qg)
        quotes.append(Quotation(nent + gi, qg[gi], rng, plain=rng.random() < .2))
    for i, q in enumerate(quotes): q.rust(i)      # registers the types of the holes
    exe = build("chkc25", main(grams, quotes))
    log(f"C25: harness built, {nent} types, {len(quotes)} quotations")
    chars = fmtlib.chartable([chr(k) for k in range(32, 127)] + ["\n", "\t"])

    # ---- readings: every text of the families
    toks = table(grams, [t for q in quotes for t in q.items if isinstance(t, str)] + [t for q in quotes for p in q.pools for x in p for t in x] + [t for q in quotes for h in q.holes for t in h.sep or []])
    outs, stt = tlc("MCEntry", dict(ENT_JSON=jsonfile(dict(toks=toks, chars=chars, grams=[g.spec() for g in fam]), "C25-mc.json"))); rep.states(stt)
    log(f"C25: TLC enumerated {len(outs)} texts, {stt['distinct']} states")
    lines, meta = [], []
    for o in outs:
        text, pos = render(o["w"], rng if rng.random() < .7 else None)
        if o["w"] and o["w"][-1] in ("!!\"", "!!/*") and rng.random() < .3: text = text.rstrip()
        lines.append(ent(o["g"] - 1, text, rng)); meta.append((o, text, pos))
    ans = Run(exe).all(lines)
    acc = 0
    for (o, text, pos), x in zip(meta, ans):
        why = judge(o, pos, x)
        acc += o["out"]["ok"]
        if why: rep.violation(why, grammar=grams[o["g"]-1].rust(), text=text, expected=dict(out=o["out"], show=o["show"]), got=x)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov.update(texts_read=len(ans), accepted=acc, untokenisable=sum(o["bad"] for o in outs))
    for o, text, _ in rng.sample(meta, 2): rep.sample(dict(direction="spec->code", text=text, ok=o["out"]["ok"], shown=o["show"]["pretty"]))

    # ---- quotations: every filling
    outs, stt = tlc("MCQuote", dict(QUO_JSON=jsonfile(dict(toks=toks, grams=[g.spec() for g in grams], quotes=[q.spec() for q in quotes]), "C25-q.json")), xss="256m"); rep.states(stt)
    log(f"C25: TLC enumerated {len(outs)} fillings, {stt['distinct']} states")
    if len(outs) > 60000: outs = rng.sample(outs, 60000)
    cases = [quote_case(o) for o in outs]
    ans = Run(exe).all([x[0] for x in cases])
    qacc = 0
    skipped = 0
    for o, (l, pos), x in zip(outs, cases, ans):
        # a piece that is read as a node first need not be readable on its own
        if x["r"] == "panic" and x["m"].startswith("piece") and any(h.typed for h in quotes[o["q"]-1].holes): skipped += 1; continue
        why = judge_quote(o, pos, x); qacc += o["out"]["ok"]
        if why: rep.violation("quotation: " + why, quotation=quotes[o["q"]-1].rust(o["q"]), grammar=grams[quotes[o["q"]-1].gi].rust(), tokens=o["w"], origins=o["org"], request=o["req"], expected=want(o, pos), got=x)
    if len(ans) < len(cases) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov.update(quotations=len(quotes), fillings=len(ans) - skipped, fillings_accepted=qacc)
    for o in rng.sample(outs, 2): rep.sample(dict(direction="spec->code", quotation=quotes[o["q"]-1].rust(o["q"])[:300], tokens=o["w"], ok=o["out"]["ok"]))

    # ---- recordings: long texts
    ss = [Sampler(g, rng, big=4) for g in grams]
    ins = []
    total = len(grams) * (60 if thorough() else 14)
    while len(ins) < total:
        gi = len(ins) % len(grams); s = ss[gi]
        w = s.sentence(rng.choice([1, 3, 4, 6, 9]), limit=rng.choice([20, 150]))
        w = respace(s.mutate(w) if rng.random() < .3 else w)
        if len(w) > 150 or any(t.startswith("!!") for t in w) or not fit(grams[gi], w): continue
        # signed literals show as one word (see DESIGN.md); the texts here have none
        if any(p == "-" and n[0].isdigit() for p, n in zip(w, w[1:])): continue
        text, pos = render(w, rng)
        ins.append((gi, w, text, pos))
    # ... and long texts with something in them that is no token
    wrong = []
    for gi, w, _, _ in rng.sample(ins, total // 5):
        w = list(w); w.insert(rng.randint(0, len(w)), rng.choice(BAD))
        if sum('"' in t for t in w) < 2: wrong.append((gi, render(w, rng)[0]))
    for (gi, text), x in zip(wrong, Run(exe).all([ent(gi, text, rng) for gi, text in wrong])):
        why = both(x) or ("accepted something that is no token" if x["a"]["r"] == "ok" else None)
        if why: rep.violation(why, grammar=grams[gi].rust(), text=text, got=x)
    rep.traces(len(wrong))
    # ... and sentences in texts with something special around them
    special = []
    for gi in range(len(grams)):
        for pre, suf in AROUND:
            w = respace(ss[gi].sentence(rng.choice([1, 2, 4]), limit=20)) if rng.random() < .8 else []
            if not any(t.startswith("!!") for t in w): special.append((gi, pre + render(w, rng if rng.random() < .5 else None)[0] + suf))
    for (gi, text), x in zip(special, Run(exe).all([ent(gi, text, rng) for gi, text in special])):
        why = both(x)
        if why: rep.violation(why, grammar=grams[gi].rust(), text=text, got=x)
    rep.traces(len(special)); rep.cov["texts_with_surroundings"] = len(special)
    ans = Run(exe).all([ent(gi, text, rng) for gi, _, text, _ in ins])
    recs, srecs, idx, sidx = [], [], [], []
    for k, ((gi, w, text, pos), x) in enumerate(zip(ins, ans)):
        why = both(x)
        if why: rep.violation(why, grammar=grams[gi].rust(), text=text, got=x); continue
        got = outcome(x["a"], Places(pos))
        recs.append(dict(g=gi + 1, w=w, out=dict(ok=got["ok"], v=flatten(got["v"]), er=got["er"]), seeOk=True, seeV=True, loc=True, seeAt=True, seeMsg=True, seeCh=True)); idx.append(k)
        if got["ok"]: srecs.append(dict(g=gi + 1, w=w, pretty=x["pretty"], compact=x["compact"])); sidx.append(k)
    if len(ans) < len(ins) and not rep.viol: raise ToolError("incomplete run")
    gs = [g.spec() for g in grams]
    toks = table(grams, [t for r in recs for t in r["w"]])
    outs, stt = tlc("PegTrace", dict(PEG_JSON=jsonfile(dict(toks=toks, grams=gs, recs=recs), "C25-tr.json")), xss="512m"); rep.states(stt)
    if len(outs) != len(recs): raise ToolError("TLC did not judge all recordings")
    for o in outs:
        if not o["ok"]:
            k = idx[o["rec"] - 1]
            rep.violation("recording rejected by the specification", grammar=grams[ins[k][0]].rust(), text=ins[k][2], expected=o["out"], got=ans[k])
    outs, stt = tlc("EntryTrace", dict(ENT_JSON=jsonfile(dict(toks=toks, chars=chars, grams=gs, recs=srecs), "C25-st.json")), xss="512m"); rep.states(stt)
    if len(outs) != len(srecs): raise ToolError(f"TLC judged {len(outs)} of {len(srecs)} recordings")
    for o in outs:
        if not o["ok"]:
            k = sidx[o["rec"] - 1]
            rep.violation("shown as something else", grammar=grams[ins[k][0]].rust(), text=ins[k][2], expected=o["want"], got=ans[k])
    rep.traces(len(recs) + len(srecs)); rep.cov["recordings_validated"] = len(recs) + len(srecs)
    return rep

AROUND = [("#!a\n", ""), ("#!/usr/bin/env x -y\n", "\n"), ("#![a]\n", ""), ("#!a", ""), ("\ufeff", ""), ("\ufeff#!a\n", ""), ("//! a\n", ""), ("/// a\n", ""), ("/** a */", ""), ("//!\n", "//"), ("/*! */", "/**/"), ("// a\n", "// a"),
          ("/* a */", "/* /* */ */"), ("\n\n", "\n\n"), ("\r\n", "\r\n"), ("\r", ""), ("", "\r"), (" \t", "\t "), ("\u00a0", ""), ("\u200e", "\u200f"), ("\u2028", "\u0085"), ("\x0b", "\x0c"), ("\0", ""), ("", "\0"), ("---\n---\n", ""), ("", "\x1a"),
          ("", "\\"), ("", "\\\n"), ("", "#"), (";", ""), ("", ";"), ("", ","), ("=", ""), ("$", ""), ("(", ")"), ("{", "}"), ("[ ", " ]"), ("(", ""), ("", ")"), ("'", "'"), ('"', '"'), ("r#", ""), ("", "'a"), ("a!", ""), ("::", "::"), ("-", ""), ("&mut ", "?"), ("`", "`")]
def ent(gi, text, rng):
    caps = ",".join(str(rng.randrange(400)) for _ in range(3)) if rng.random() < .4 else ""
    return f"E\t{gi}\t{text.encode().hex()}\t{caps}"

def both(x):
    if x["r"] != "ok": return f"no answer: {x}"
    if x["other"]: return f"{x['other'][0][0]} gives another answer than parse_str"
    if x.get("bad"): return f"shown or read differently: {x['bad'][0]}"
    return None

def judge(o, pos, x):
    why = both(x)
    if why: return why
    if o["bad"]: return "accepted something that is no token" if x["a"]["r"] == "ok" else None
    got = outcome(x["a"], Places(pos))
    why = differs(See(ok=True, v=True, at=True, msg=True, ch=True), o["out"], got)
    if why: return why
    if o["out"]["ok"]:
        if x["pretty"] != o["show"]["pretty"]: return "the standard display is not the pretty form of its tokens"
        if x["compact"] != o["show"]["compact"]: return "the alternate display is not the compact form of its tokens"
    return None
