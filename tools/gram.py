"""Grammars as data: a small DSL, compiled to spec nodes (JSON for TLC) and to Rust types.

Expressions (tuples):
  ("p","==")            punctuation token (Token![==])
  ("ident",) ("word",)  Ident / Word
  ("kw","a")            keyword type from define_keywords!
  ("ci","a","b")        CustomIdent with keyword list
  ("rkw","fn")          Token![fn]
  ("lit","LitInt")      literal types
  ("ref","Expr")        a declared type
  ("maybe",p,t) ("any",x) ("punct",x,p) ("many",x) ("sep",x,p)
  ("left",op,operand) ("right",op,operand) ("grp","(",x) ("either",l,r) ("attempt",x)
  ("empty",) ("eof",) ("noteof",) ("box",x)
Declarations:
  S(name, style, [(field, expr)...])          style: named / tuple / unit
  E(name, [(variant, style, [(field, expr)...])...])
"""
import json, random, zlib

def S(name, style, fields): return dict(kind="struct", name=name, style=style, fields=fields)
def E(name, variants): return dict(kind="enum", name=name, variants=variants)

def P(s): return ("p", s)
def K(s): return ("kw", s)
def R(s): return ("ref", s)
IDENT = ("ident",); WORD = ("word",); EMPTY = ("empty",); EOF = ("eof",); NOTEOF = ("noteof",)
def LIT(s): return ("lit", s)
def maybe(p, t=EMPTY): return ("maybe", p, t)
def any_(x): return ("any", x)
def punct(x, p): return ("punct", x, p)
def many(x): return ("many", x)
def sep(x, p): return ("sep", x, p)
def left(o, r): return ("left", o, r)
def right(o, l): return ("right", o, l)
def grp(d, x): return ("grp", d, x)
def par(x): return ("grp", "(", x)
def either(l, r): return ("either", l, r)
# x without a branch of its own: what is left of the input when x has failed is what x itself left (x: an alternation)
def attempt(x): return ("attempt", x)
# a parser of the user which always fails, with a message of its own
def fail(msg): return ("fail", msg)
def box(x): return ("box", x)

# ---------------------------------------------------------------- tokens
RUST_KW = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen".split())
DECOR = ["/// more, of this (and that)\n", "#[doc(hidden)] ", "#[allow(dead_code)] ", "#[cfg(all())] ", '#[cfg_attr(all(), doc = "x, y", allow(unused))] ', "#[rustfmt::skip] ",
         "#[cfg_attr(any(), parsel(recursive))] ", "/** recursive */ #[doc(hidden)] #[allow(unused)] "]

def tokinfo(name):
    """class of a token name; punctuation joint with its successor is written with a trailing ~"""
    def t(k, c="", j=False, l=""): return dict(k=k, c=c, j=j, l=l)
    if name in ("!(", "!)"): return t("veil")
    if name.startswith("!!"): return t("bad", name[2:])      # no token at all
    if name in "([{": return t("open", name)
    if name in ")]}": return t("close", {")": "(", "]": "[", "}": "{"}[name])
    if name.endswith("~") and len(name) == 2: return t("punct", name[0], True)
    if name.startswith('b"') or name.startswith('br"'): return t("lit", name, l="bstr")
    if name.startswith("b'"): return t("lit", name, l="byte")
    if name.startswith('"') or name.startswith('r"') or name.startswith('r#"'): return t("lit", name, l="str")
    if name.startswith("'"): return t("lit", name, l="char")
    if name[0].isdigit():
        if name.endswith(("f32", "f64")): return t("lit", name, l="float")
        isf = ("." in name or ("e" in name and not name.startswith("0x")))
        return t("lit", name, l="float" if isf else "int")
    if name.startswith("r#"): return t("ident", name)
    if name[0].isalpha() or (name[0] == "_" and len(name) > 1):
        return t("rkw" if name in RUST_KW - {"gen", "union"} else "ident", name)
    if name == "_": return t("rkw", "_")
    assert len(name) == 1, name
    return t("punct", name)

def wordlike(name):
    return name[0].isalpha() and not name.startswith("r#") and not set("\"'#!/ ") & set(name)

def toktext(name):
    if name in ("!(", "!)"): return "__none (" if name == "!(" else ")"      # a group without delimiters
    if name.startswith("!!"): return name[2:]
    if name.startswith("//"): return name + "\n"
    return name[0] if name.endswith("~") and len(name) == 2 else name

def ptoks(s):
    """token names of a multi-character operator"""
    return [c + "~" for c in s[:-1]] + [s[-1]]

# ---------------------------------------------------------------- grammar
class Gram:
    def __init__(self, types, start, alpha, max=5, mmax=None, note="", unloc=False):
        self.types, self.start, self.alpha, self.max = types, start, list(alpha), max
        self.mmax = max if mmax is None else mmax
        self.note = note; self.unloc = unloc
        self.compile()

    def compile(self):
        self.nodes = []; self.tynode = {}; self.expr = {}
        byname = {t["name"]: t for t in self.types}
        self.byname = byname
        def new(op, s="", e="", a=None, f=None):
            self.nodes.append(dict(op=op, s=s, e=e, a=a or [], f=f or [])); return len(self.nodes)
        def fieldnames(style, fields):
            return [f[0] for f in fields] if style == "named" else [str(i) for i in range(len(fields))]
        def decl(name):
            if name in self.tynode: return self.tynode[name]
            t = byname[name]
            n = new("?"); self.tynode[name] = n
            if t["kind"] == "struct":
                a = [ex(f[1]) for f in t["fields"]]
                self.nodes[n-1] = dict(op="seq", s=name, e="", a=a, f=fieldnames(t["style"], t["fields"]))
            else:
                a = []
                for v, style, fs in t["variants"]:
                    c = [ex(f[1]) for f in fs]
                    a.append(new("seq", v, name, c, fieldnames(style, fs)))
                self.nodes[n-1] = dict(op="alt", s=name, e="", a=a, f=[])
            return n
        def ex(x):
            n = ex0(x); self.expr.setdefault(n, x); return n
        def ex0(x):
            o = x[0]
            if o == "p": return new("tok", "punct", f=list(x[1]))
            if o == "ident": return new("tok", "ident")
            if o == "word": return new("tok", "word")
            if o == "kw": return new("tok", "kw", f=[x[1]])
            if o == "ci": return new("tok", "cident", f=list(x[1:]))
            if o == "rkw": return new("tok", "rkw", f=[x[1]])
            if o == "lit": return new("tok", x[1])
            if o == "ref": return decl(x[1])
            if o == "box": return ex(x[1])
            if o == "grp": return new("group", x[1], a=[ex(x[2])])
            if o == "attempt": return new("either", a=[ex(x[1]), ex(EMPTY)])
            if o in ("maybe", "sep", "either"): return new(o, a=[ex(x[1]), ex(x[2])])
            if o == "punct": return new("punct", a=[ex(x[1]), ex(x[2])])
            if o == "many": return new("punct", a=[ex(x[1]), new("noteof")])
            if o == "any": return new("any", a=[ex(x[1])])
            if o in ("left", "right"): return new(o, a=[ex(x[2]), ex(x[1])])
            if o in ("empty", "eof", "noteof"): return new(o)
            if o == "fail": return new(o, x[1])
            raise ValueError(o)
        self.startnode = ex(self.start)

    def spec(self):
        return dict(nodes=self.nodes, start=self.startnode, alpha=self.alpha, max=self.max, mmax=self.mmax, unloc=self.unloc, flat=getattr(self, "flat", False))

    # ------------------------------------------------ well-formedness
    def wellformed(self):
        n = len(self.nodes)
        nul = [False] * (n + 1)
        ch = True
        def nullable(k):
            N = self.nodes[k-1]; o = N["op"]
            if o in ("tok", "group", "fail"): return False
            if o == "seq": return all(nul[c] for c in N["a"])
            if o in ("alt", "either"): return any(nul[c] for c in N["a"])
            if o in ("sep", "left", "right"): return nul[N["a"][0]]
            return True
        while ch:
            ch = False
            for k in range(1, n+1):
                v = nullable(k)
                if v != nul[k]: nul[k] = v; ch = True
        self.nul = nul
        for k in range(1, n+1):
            N = self.nodes[k-1]; o = N["op"]
            if o == "any" and nul[N["a"][0]]: return False
            if o in ("sep", "left", "right", "punct") and all(nul[c] for c in N["a"]): return False
        # left recursion
        def lefts(k):
            N = self.nodes[k-1]; o = N["op"]
            if o == "seq":
                r = []
                for c in N["a"]:
                    r.append(c)
                    if not nul[c]: break
                return r
            if o in ("alt", "either"): return N["a"]
            if o in ("maybe", "sep", "left", "right", "punct"):
                return N["a"] if nul[N["a"][0]] else N["a"][:1]
            if o == "any": return N["a"]
            return []
        col = {}
        def dfs(k):
            col[k] = 1
            for c in lefts(k):
                if col.get(c) == 1: return False
                if c not in col and not dfs(c): return False
            col[k] = 2
            return True
        return all(dfs(k) for k in range(1, n+1) if k not in col)

    # ------------------------------------------------ Rust
    def refs(self, x, acc):
        if x[0] == "ref": acc.add(x[1])
        for y in x[1:]:
            if isinstance(y, tuple): self.refs(y, acc)
        return acc

    def reach(self):
        g = {}
        for t in self.types:
            s = set()
            fs = t["fields"] if t["kind"] == "struct" else [f for v in t["variants"] for f in v[2]]
            for f in fs: self.refs(f[1], s)
            g[t["name"]] = s
        ch = True
        while ch:
            ch = False
            for a in g:
                for b in list(g[a]):
                    if not g.get(b, set()) <= g[a]: g[a] |= g[b]; ch = True
        return g

    def decor(self, *where):
        """attributes that mean nothing to the derives, on a third of the declarations, fields and variants"""
        h = zlib.crc32(repr((where, [t["name"] for t in self.types], str(self.start))).encode())
        if h % 3: return ""
        pool = DECOR + {"field": [], "variant": ["#[non_exhaustive] "], "type": ["#[must_use] ", "#[non_exhaustive] "]}[where[0]]
        return pool[h // 3 % len(pool)]

    def rust(self, derives="Clone, PartialEq, Eq, Hash, Debug, Parse, ToTokens, FromStr, Display", probe=None):
        kws, cis, fails = {}, {}, {}
        D = {"(": "Paren", "[": "Bracket", "{": "Brace"}
        def ty(x):
            t = ty0(x)
            return f"{probe}<{t}>" if probe and x[0] in ("p", "ident", "word", "kw", "ci", "rkw", "lit") else t
        def ty0(x):
            o = x[0]
            if o == "p": return f"Token![{x[1]}]"
            if o == "ident": return "Ident"
            if o == "word": return "Word"
            if o == "kw":
                nm = kws.setdefault(x[1], f"K{len(kws)}"); return f"kw::{nm}"
            if o == "ci":
                nm = cis.setdefault(tuple(x[1:]), f"ci{len(cis)}"); return f"CustomIdent<{nm}::Keywords>"
            if o == "rkw": return f"Token![{x[1]}]"
            if o == "lit": return x[1]
            if o == "ref": return x[1]
            if o == "box": return f"Box<{ty(x[1])}>"
            if o == "grp": return f"{D[x[1]]}<{ty(x[2])}>"
            if o == "maybe": return f"Maybe<{ty(x[1])}>" if x[2] == EMPTY else f"Maybe<{ty(x[1])}, {ty(x[2])}>"
            if o == "sep": return f"Separated<{ty(x[1])}, {ty(x[2])}>"
            if o == "fail": return fails.setdefault(x[1], f"Fail{len(fails)}")
            if o == "attempt": return f"Attempt<{ty(x[1])}>"
            if o == "either": return f"Either<{ty(x[1])}, {ty(x[2])}>"
            if o == "punct": return f"Punctuated<{ty(x[1])}, {ty(x[2])}>"
            if o == "many": return f"Many<{ty(x[1])}>"
            if o == "any": return f"Any<{ty(x[1])}>"
            if o == "left": return f"LeftAssoc<{ty(x[1])}, {ty(x[2])}>"
            if o == "right": return f"RightAssoc<{ty(x[1])}, {ty(x[2])}>"
            return {"empty": "Empty", "eof": "Eof", "noteof": "NotEof"}[o]
        reach = self.reach()
        out = []; dumps = []
        def flds(owner, style, fs):
            def one(f, pub, i):
                rec = "#[parsel(recursive)] " if any(owner in reach[r] or r == owner for r in self.refs(f[1], set())) else ""
                nm = f"{f[0]}: " if style == "named" else ""
                dec = self.decor("field", owner, f[0], i, len(fs))
                return f"{dec}{rec}{pub}{nm}{ty(f[1])}" if len(dec) % 2 else f"{rec}{dec}{pub}{nm}{ty(f[1])}"
            pub = "pub " if owner_struct else ""
            if style == "unit": return ""
            body = ", ".join(one(f, pub, i) for i, f in enumerate(fs))
            return " { " + body + " }" if style == "named" else "(" + body + ")"
        for t in self.types:
            nm = t["name"]; owner_struct = t["kind"] == "struct"
            der = f"#[derive({derives})]"
            if owner_struct:
                b = flds(nm, t["style"], t["fields"])
                out.append(f"{der} {self.decor('type', nm)}pub struct {nm}{b}" + ("" if t["style"] == "named" else ";"))
                accs = [f"self.{f[0] if t['style']=='named' else i}" for i, f in enumerate(t["fields"])]
                dumps.append(f"impl Dump for {nm} {{ fn dump(&self, o: &mut String) {{ node(o, \"{nm}\", &[{', '.join('&'+a for a in accs)}]) }} }}")
            else:
                vs = []; arms = []
                for v, style, fs in t["variants"]:
                    vs.append(self.decor("variant", nm, v) + v + flds(nm, style, fs))
                    bs = [f"x{i}" for i in range(len(fs))]
                    if style == "named": pat = " { " + ", ".join(f"{f[0]}: {b}" for f, b in zip(fs, bs)) + " }"
                    elif style == "tuple": pat = "(" + ", ".join(bs) + ")"
                    else: pat = ""
                    arms.append(f"{nm}::{v}{pat} => node(o, \"{nm}::{v}\", &[{', '.join(bs)}]),")
                out.append(f"{der} {self.decor('type', nm)}pub enum {nm} {{ {', '.join(vs)} }}")
                m = "match self { " + " ".join(arms) + " }" if arms else "match *self {}"
                un = "#[allow(unused)] " if not arms else ""
                dumps.append(f"{un}impl Dump for {nm} {{ fn dump(&self, o: &mut String) {{ {m} }} }}")
        st = ty(self.start)
        alias = [f"pub type {n} = {ty(x)};" for n, x in getattr(self, "aliases", {}).items()]
        pre = []
        if kws:
            # a bare underscore has to be the last keyword of the list
            ks = sorted(kws.items(), key=lambda kv: kv[0] == "_")
            pre.append("parsel::define_keywords!{ pub mod kw { " + " ".join(f"{k} => {n};" for k, n in ks) + " } }")
            pre += [f"leaf_impl!(kw::{n});" for n in kws.values()]
        pre += [f"harness::fail_impl!({n}, {rstr(m)});" for m, n in fails.items()]
        for kl, nm in cis.items():
            pre.append(f"parsel::define_keywords!{{ pub mod {nm} {{ " + " ".join(f"{k} => C{i};" for i, k in enumerate(kl)) + " } }")
        return "\n".join(["use harness::*;", "use parsel::ast::*;", "use parsel::syn::Token;", "#[allow(unused)] use parsel::{Parse, ToTokens, FromStr, Display};"]
                         + pre + out + dumps + alias + [f"pub type Start = {st};"])

def rstr(s): return '"' + "".join(c if c.isascii() and c.isprintable() and c not in '"\\' else f"\\u{{{ord(c):x}}}" for c in s) + '"'
# ---------------------------------------------------------------- layouts
PLAIN = tuple("+-*,;=?<>^|:&")
SPACES = [" ", "\n", "\t", "  ", " /* \u00e9\U0001f600 */ ", "\r\n", " // c\n", "\n\n    "]
HUGE = [" " * 300, "\n" * 300, " /*" + "\u00e9" * 1100 + "*/", "\t" * 5000, "\n" * 2000 + "  ", " " * 70000]
def far_gap(rng):
    """a long gap: what comes next is right before, at or after a boundary of line or column numbers"""
    n = rng.choice([256, 256, 65536, 32768, 1024]) - rng.choice([0, 1, 2, 3])
    return rng.choice(["\n" * n, "\n" * n + " ", " " * n, "\n" + " " * n])
def render(w, rng=None, spaces=None, far=None):
    """text of the tokens w, and the position map: (line,col) of each token's start and end; far: (k, gap) puts a long gap
    before the k-th token"""
    if rng and spaces is None and rng.random() < .03: spaces = SPACES + [rng.choice(HUGE[:3] if len(w) > 60 else HUGE)]
    text = []; line = 1; col = 0; off = 0; pos = []
    def emit(s):
        nonlocal line, col, off
        text.append(s); off += len(s)
        if len(s) > 200:
            n = s.count("\n"); line += n; col = len(s) - 1 - s.rfind("\n") if n else col + len(s)
            return
        for ch in s:
            if ch == "\n": line += 1; col = 0
            else: col += 1
    if far and far[0] == 0: emit(far[1])
    elif rng and rng.random() < .3: emit(rng.choice(spaces or SPACES))
    for k, t in enumerate(w):
        s = (line, col); so = off
        emit(toktext(t))
        pos.append((s, (line, col), so, off))
        if k + 1 < len(w) and not (t.endswith("~") and len(t) == 2):
            nx = w[k+1]
            # a word and a plain punctuation character need no space
            plain = [x in PLAIN or wordlike(x) for x in (t, nx)]
            glue = all(plain) and (t in PLAIN) != (nx in PLAIN) or (t in "([{" or nx in ")]}" or t in ")]}" or nx in "([{")
            if far and far[0] == k + 1: emit(far[1])
            elif rng is None: emit(" ")
            elif glue and rng.random() < .4: pass
            else: emit(rng.choice(spaces or SPACES))
    if rng and rng.random() < .3: emit(rng.choice(spaces or SPACES))
    return "".join(text), pos
