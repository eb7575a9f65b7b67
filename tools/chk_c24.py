"""C24: the derives on declarations of every shape, decided with the Derive specification."""
import itertools, random
from concurrent.futures import ThreadPoolExecutor
from core import *
LIB = open(os.path.join(HERE, "derlib.rs")).read()

# ---------------------------------------------------------------- types of fields
def ty(k, t="", n=0, *sub): return dict(k=k, t=t, n=n, sub=list(sub))
def leaf(t): return ty("leaf", t)
PLUS, MINUS, W = leaf("+"), leaf("-"), leaf("w")
def T(n=1): return ty("param", n=n)
PASS, PROJ = ty("pass", n=1), ty("proj", n=1)
def box(x): return ty("box", "", 0, x)
def maybe(p, b): return ty("maybe", "", 0, p, b)
def paren(x): return ty("paren", "", 0, x)
def anyof(x): return ty("any", "", 0, x)
def ref(x): return ty("ref", "", 0, x)
SELF, OTHER = ty("self"), ty("other")
def fixed(n=1): return ty("fixed", n=n)
def fl(t, rec=False): return dict(ty=t, rec=rec)
def R(t): return fl(t, True)

def strings(alpha, n):
    """balanced sequences up to a length"""
    out = []
    for k in range(n + 1):
        for s in itertools.product(alpha, repeat=k):
            d = 0
            for c in s:
                d += (c == "(") - (c == ")")
                if d < 0: break
            if d == 0: out.append(list(s))
    return out

NONE = dict(struct=True, vs=[])
def _family(rng, name, struct, pool, alpha, n, minv=0, maxv=2, maxf=2, maxall=4, styles=("unit", "tuple", "named"), args=((),), other=NONE, gens=("",), given=(), keep=20, extra=(), borrow=False, vary=None):
    ins = strings(alpha, n)
    short = [x for x in ins if len(x) <= 2]; long = [x for x in ins if len(x) > 2]
    ins = short + rng.sample(long, min(len(long), 150 if thorough() else 30)) + [list(x.split()) for x in extra]
    return dict(name=name, gens=gens, keep=keep, borrow=borrow, params=len(args[0]),
                spec=dict(struct=struct, styles=list(styles), pool=list(pool), minv=minv, maxv=maxv, maxf=maxf, maxall=maxall, args=[list(a) for a in args], inputs=ins, other=other, given=list(given)))

ONE = (("+",), ("w",), ("NoP",), ("OnlyP",), ("OnlyT",))
G1 = ("<T>|", "<T,>|", "<T: ::core::clone::Clone>|", "<T>|where T: ::core::clone::Clone", "<T>|where T: ::core::clone::Clone,", "<T>|where", "<T = ::parsel::ast::Word>|", "<T: ::core::marker::Sized + 'static>|",
      "<T>|where for<'x> &'x T: ::core::marker::Copy, ::std::boxed::Box<T>: ::core::clone::Clone", "<T>|where Self: ::core::marker::Sized", "<T: ?::core::marker::Sized>|where T: ::core::marker::Sized,", "<T: crate::help::Tr>|where T::Out: ::core::clone::Clone")
TWO = (("+", "w"), ("w", "w"), ("+", "+"), ("NoP", "w"), ("+", "NoP"), ("OnlyP", "+"), ("OnlyT", "OnlyT"))
G2 = ("<T, U>|", "<T, U: ::core::clone::Clone>|where T: ::core::clone::Clone", "<T, U = T>|", "<U, T>|")
GN = ("<const N: ::core::primitive::usize>|", "<const N: ::core::primitive::usize = 2>|", "<const N: ::core::primitive::usize>|where crate::help::Rep<N>: ::core::clone::Clone")
GTN = ("<T, const N: ::core::primitive::usize>|", "<T, const N: ::core::primitive::usize = 1>|where T: ::core::clone::Clone")
GL = ("<'a>|", "<'a>|where 'a: 'a", "<'input>|")
GLT = ("<'a, T>|", "<'a, T: 'a>|", "<'a, T>|where T: 'a + ::core::clone::Clone,")

def families(rng, deep):
    k = 16 if deep else 3
    import functools
    family = functools.partial(_family, rng)
    wide = []
    for _ in range(8 * k):
        n = rng.choice([5, 9, 13, 30])
        wide.append([dict(style=rng.choice(["tuple", "named"]), fs=[fl(rng.choice([PLUS, MINUS, W])) for _ in range(n)])])
    many = []
    for _ in range(8 * k):
        n = rng.choice([4, 6, 12, 40])
        v = [dict(style=rng.choice(["tuple", "named"]), fs=[fl(rng.choice([PLUS, MINUS, W])) for _ in range(rng.choice([1, 2, 2, 3]))]) for _ in range(n)]
        if rng.random() < .3: v.append(dict(style="unit", fs=[]))
        many.append(v)
    def winputs(vss):
        """inputs around what they accept"""
        out = []
        for vs in vss:
            for v in rng.sample(vs, min(4, len(vs))):
                w = [f["ty"]["t"] for f in v["fs"]]; out.append(" ".join(w))
                if w:
                    out.append(" ".join(w[:-1])); i = rng.randrange(len(w)); w[i] = rng.choice("+-w"); out.append(" ".join(w)); out.append(" ".join(w + ["+"]))
        return out
    # one type for several fields, not all of them marked: the bounds are those of the fields without the mark
    again = [[fl(T()), R(T())], [R(T()), fl(T())], [fl(T()), R(box(T()))], [R(maybe(MINUS, T())), fl(T())], [fl(T()), fl(T()), R(T())], [R(PASS), fl(PASS)], [fl(PASS), R(PASS), fl(T())],
             [fl(box(T())), R(box(T())), fl(T())], [R(paren(T())), fl(T()), R(T())], [fl(PROJ), R(PROJ)], [R(W), fl(W), fl(T())], [fl(anyof(T())), R(T()), fl(T())]]
    again1 = [[dict(style=s, fs=fs)] for fs in again for s in ("tuple", "named")]
    again2 = [[dict(style="named", fs=fs[:1]), dict(style="tuple", fs=fs[1:])] for fs in again] + [[dict(style="tuple", fs=fs), dict(style="unit", fs=[])] for fs in again]
    # types with the same name and different arguments: each has a bound of its own
    twin = [[fl(h(T(1))), fl(h(T(2)))] for h in (box, paren, anyof, lambda x: maybe(PLUS, x), lambda x: maybe(x, W), lambda x: box(paren(x)))] + [[fl(box(W)), fl(box(T(1))), fl(T(2))], [fl(paren(T(2))), fl(paren(PLUS)), fl(paren(T(1)))], [fl(maybe(T(1), T(2))), fl(maybe(T(2), T(1)))]]
    twin1 = [[dict(style=s, fs=fs)] for fs in twin for s in ("tuple", "named")]
    twin2 = [[dict(style="named", fs=fs[:1]), dict(style="tuple", fs=fs[1:])] for fs in twin]
    P2 = (fl(PLUS), fl(W))
    other1 = dict(struct=True, vs=[dict(style="tuple", fs=[fl(MINUS), fl(maybe(W, box(SELF)))])])
    other2 = dict(struct=False, vs=[dict(style="named", fs=[fl(MINUS), fl(box(SELF))]), dict(style="unit", fs=[])])
    other3 = dict(struct=True, vs=[dict(style="named", fs=[fl(T()), R(maybe(MINUS, box(SELF)))])])
    return [
        family("struct", True, (fl(PLUS), fl(MINUS), fl(W)), "+-w", 3, maxf=3, maxall=3, keep=22 * k),
        family("enum", False, P2, "+w", 3, maxv=2, maxf=2, keep=40 * k),
        family("enum3", False, P2, "+w", 3, minv=3, maxv=3, maxf=1, maxall=3, keep=25 * k, extra=("w + w", "+ + + +")),
        family("nested", False, (fl(paren(PLUS)), fl(maybe(PLUS, W)), fl(anyof(W)), fl(box(PLUS))), "+w()", 4, minv=1, maxv=2, maxf=2, maxall=3, keep=25 * k),
        family("wide", True, (), "", 0, maxv=0, given=wide, extra=winputs(wide), keep=8 * k),
        family("many", False, (), "", 0, maxv=0, given=many, extra=winputs(many), keep=8 * k),
        family("gstruct", True, (fl(T()), fl(PASS), fl(box(T())), fl(maybe(PLUS, T())), fl(paren(T())), fl(PROJ), fl(anyof(T())), fl(W)), "+w-*", 3, maxf=2, maxall=2, args=ONE, gens=G1, keep=40 * k, extra=("( + )", "( w )", "+ w +", "( + ) w", "( w ) w", "( ) +", "( )", "( + - )")),
        family("genum", False, (fl(T()), fl(PASS), fl(box(T())), fl(PROJ), fl(MINUS)), "+w-*", 3, minv=1, maxv=2, maxf=2, maxall=3, args=ONE, gens=G1, keep=40 * k),
        family("again", True, (), "+w-*", 3, maxv=0, given=again1, args=ONE, gens=G1, keep=12 * k),
        family("again-enum", False, (), "+w-*", 3, maxv=0, given=again2, args=ONE, gens=G1, keep=12 * k),
        family("two", True, (fl(T(1)), fl(T(2)), fl(maybe(T(1), T(2))), fl(PASS)), "+w-", 3, maxf=3, maxall=3, styles=("tuple", "named"), args=TWO, gens=G2, keep=15 * k),
        family("two-enum", False, (fl(T(1)), fl(T(2)), fl(PASS)), "+w-", 3, minv=1, maxv=2, maxf=2, maxall=3, styles=("tuple", "named"), args=TWO, gens=G2, keep=15 * k),
        family("twin", True, (), "+w-", 3, maxv=0, given=twin1, args=TWO, gens=G2, keep=10 * k, extra=("( + ) ( w )", "( w ) ( w )", "( w ) ( + ) ( + )", "+ + + w")),
        family("twin-enum", False, (), "+w-", 3, maxv=0, given=twin2, args=TWO, gens=G2, keep=8 * k, extra=("( + )", "( w ) ( + )")),
        family("number", True, (fl(fixed()), fl(W)), "+w", 4, maxf=3, maxall=3, args=(("0",), ("1",), ("2",), ("3",)), gens=GN, keep=10 * k),
        family("number-enum", False, (fl(fixed(2)), fl(T())), "+w", 4, minv=1, maxv=2, maxf=2, maxall=3, args=(("w", "0"), ("+", "2"), ("NoP", "1"), ("OnlyT", "2")), gens=GTN, keep=12 * k),
        family("recstruct", True, (fl(W), R(maybe(PLUS, box(SELF))), R(maybe(paren(box(SELF)), PLUS))), "+w()", 5, maxf=3, maxall=3, styles=("tuple", "named"), keep=14 * k),
        family("recenum", False, (fl(W), R(maybe(PLUS, box(SELF))), R(paren(box(SELF))), R(paren(anyof(SELF)))), "+w()", 5, minv=1, maxv=2, maxf=2, maxall=3, keep=25 * k, extra=("( ( w ) w )", "( w ( w ) ( ) )", "( ( ( w ) ) )")),
        family("recgeneric", False, (fl(T()), R(maybe(MINUS, box(SELF))), R(paren(box(SELF)))), "+w-()", 4, minv=1, maxv=2, maxf=2, maxall=3, styles=("tuple", "named"), args=ONE, gens=G1, keep=20 * k, extra=("( ( w ) )", "+ - + - +")),
        family("mutual1", True, (fl(W), R(maybe(PLUS, box(OTHER)))), "+w-", 5, maxf=2, maxall=2, styles=("tuple", "named"), other=other1, keep=8 * k, extra=("+ - w + - w + -",)),
        family("mutual2", False, (fl(W), fl(PLUS), R(paren(anyof(OTHER)))), "+w-()", 4, minv=1, maxv=2, maxf=2, maxall=3, other=other1, keep=12 * k, extra=("( - w w - )", "( - - - )")),
        family("mutual3", False, (fl(W), R(maybe(PLUS, box(OTHER)))), "+w-", 4, minv=1, maxv=2, maxf=2, maxall=3, styles=("tuple", "named"), other=other2, keep=12 * k, extra=("+ - + - w", "+ - + - +")),
        family("mutual4", True, (fl(T()), R(maybe(PLUS, box(OTHER)))), "+w-", 5, maxf=3, maxall=3, styles=("tuple", "named"), other=other3, args=ONE, gens=G1[:6], keep=12 * k),
        family("borrow", True, (fl(ref(PLUS)), fl(ref(W)), fl(W), fl(ref(maybe(PLUS, W)))), "+w", 3, maxf=3, maxall=3, styles=("tuple", "named"), gens=GL, keep=10 * k, borrow=True),
        family("borrow-enum", False, (fl(ref(T())), fl(T()), fl(ref(PLUS)), fl(box(ref(T())))), "+w", 3, minv=1, maxv=2, maxf=2, maxall=3, args=ONE, gens=GLT, keep=12 * k, borrow=True),
    ]

# ---------------------------------------------------------------- names
TYPES = ["Node", "Node", "Result", "Option", "Err", "Ok", "Some", "None", "String", "Box", "Vec", "Parse", "ToTokens", "Display", "FromStr", "Error", "TokenStream", "Token", "Ident", "Span", "Iterator", "r#type", "r#match", "Default", "str", "u8",
         "usize", "bool", "From", "Into", "Fn", "Sync", "Sized", "Formatter", "ParseStream", "Spanned", "\u00c9t\u00e9", "AST_Node", "snake_case", "r#Struct", "X", "Parser", "Punctuated", "fmt", "util", "char"]
VARIANTS = ["A", "B", "C", "Ok", "Err", "Some", "None", "Node", "Result", "Option", "Either", "Left", "Empty", "r#type", "r#match", "r#fn", "lower", "input", "error", "tokens", "result", "cause", "ast_node", "X1", "\u00c9", "V_0", "Box", "Vec",
            "Default", "String", "Error", "Parse", "Self_", "formatter", "string", "r#Self_", "err", "parse", "Binary", "__", "A_0", "A_1"]
FIELDS = ["x", "input", "tokens", "error", "result", "cause", "err", "ast_node", "r#type", "value", "formatter", "string", "parse", "into", "parsel", "core", "T", "stream", "span", "node", "_x", "__", "index", "variant", "map_err", "f", "r#fn", "\u00e9",
          "N", "self_", "r#struct", "std", "syn", "to_tokens", "Ok", "Err", "Some", "None", "Option", "body", "other", "e", "i", "r#match", "r#x", "fmt", "this", "parsel_field_A_0", "parsel_field_A_1", "parsel_field_Ok_0", "parsel_field_B_1", "a", "b", "c", "lhs", "rhs", "op", "unwrap_or_else", "item", "r#await", "r#async", "r#dyn", "union", "default", "auto", "ident", "fork", "r#Err"]
PARAMS = ["T", "T", "U", "Result", "Option", "Error", "Self_", "A", "Ok", "Err", "Item", "P", "\u00c9", "Parse", "R", "Parsel", "F", "S", "tokens_", "Input"]
CONSTS = ["N", "COUNT", "M", "r#LEN", "Size"]
def bare(x): return x[2:] if x.startswith("r#") else x
def pick(rng, pool, used):
    for _ in range(1000):
        x = rng.choice(pool)
        if bare(x) not in used: used.add(bare(x)); return x
    for i in itertools.count():
        if f"n{i}" not in used: used.add(f"n{i}"); return f"n{i}"

class Named:
    """a declaration with names"""
    def __init__(self, rng, decl, used):
        self.decl, self.rng = decl, rng
        self.name = pick(rng, TYPES, used)
        vused = set(); self.vnames = []
        for v in decl["vs"]: self.vnames.append(pick(rng, VARIANTS + [self.name] * 5, vused))
        plain = rng.random() < .3
        self.fnames = []
        for v in decl["vs"]:
            fused = set(); self.fnames.append([pick(rng, FIELDS, fused) if not plain else f"f{i}" for i in range(len(v["fs"]))])
    def label(self, v, f):
        """what an error calls a field: v 0 for a struct"""
        i = max(v, 1) - 1
        n = self.fnames[i][f - 1] if self.decl["vs"][i]["style"] == "named" else str(f - 1)
        return "::".join(bare(x) for x in ([self.name] if v == 0 else [self.name, self.vnames[i]]) + [n])

RUST = {"+": "::parsel::syn::Token![+]", "-": "::parsel::syn::Token![-]", "*": "::parsel::syn::Token![*]", "w": "::parsel::ast::Word"}
def arg(a): return RUST.get(a) or (a if a.isdigit() else "crate::help::" + a)

class Decl:
    """one declaration of a family with concrete names: source text, and how to check it"""
    def __init__(self, i, fam, o, rng):
        self.i, self.fam, self.o, self.rng = i, fam, o, rng
        self.decl = dict(struct=fam["spec"]["struct"], vs=o["vs"])
        used = set()
        self.me = Named(rng, self.decl, used)
        self.other = Named(rng, fam["spec"]["other"], used) if fam["spec"]["other"]["vs"] else None
        self.gen, self.where = (rng.choice(fam["gens"]).split("|") + [""])[:2]
        names = re.findall(r"(?<![\w'])(const N|[TU])(?!\w)", self.gen); seen = []
        for n in names:
            n = n.split()[-1]
            if n not in seen: seen.append(n)
        self.order = seen                                # the parameters as declared
        self.map = {}
        for n in seen:
            self.map[n] = n if rng.random() < .4 and n not in used else pick(rng, PARAMS if n != "N" else CONSTS, used)
            used.add(self.map[n])
        sub = lambda s: re.sub(r"(?<![\w'\"])([TUN])(?!\w)", lambda m: self.map.get(m.group(1), m.group(1)), s)
        self.gen, self.where = sub(self.gen), sub(self.where)
        self.life = re.findall(r"'\w+", self.gen)[0] if fam["borrow"] else ""
        self.twin = Named(rng, self.decl, used) if fam["borrow"] else self.me
        self.kinds = [("N" if "number" in fam["name"] and (fam["params"] == 1 or n == 2) else "TU"[n - 1]) for n in range(1, fam["params"] + 1)]
        self.env = rng.choice(["plain", "plain", "fn", "decoys", "macro"])
        self.short = rng.random() < .5
        if fam["name"] in ("wide", "many") or self.other: self.env = rng.choice(["plain", "fn", "decoys"])
    def params(self, with_life=True):
        x = ([self.life] if self.life and with_life else []) + [self.map[n] for n in self.order]
        return "<" + ", ".join(x) + ">" if x else ""
    def inst(self, name, a, life=None):
        """the type with arguments"""
        by = {self.kinds[j]: arg(a[j]) for j in range(len(a))}
        x = ([life] if life else []) + [by[n] for n in self.order]
        return name + ("<" + ", ".join(x) + ">" if x else "")
    def path(self, full):
        """a path, or one name brought in for it"""
        return full.split("::")[-1] + "Of" if self.short else full
    def ty(self, t, who):
        k, sub = t["k"], t["sub"]
        if k == "leaf": return RUST[t["t"]]
        if k == "param": return self.map[self.kinds[t["n"] - 1]]
        if k == "pass": return f"{self.path('crate::help::Pass')}<{self.map[self.kinds[t['n'] - 1]]}>"
        if k == "proj": return f"<{self.map[self.kinds[t['n'] - 1]]} as crate::help::Tr>::Out"
        if k == "fixed":
            n = self.map[self.kinds[t["n"] - 1]]; return f"{self.path('crate::help::Rep')}<{n}>" if self.rng.random() < .5 else f"{self.path('crate::help::Rep')}<{{ {n} }}>"
        if k == "box": return f"{self.path('::std::boxed::Box')}<{self.ty(sub[0], who)}>"
        if k == "maybe": return f"{self.path('::parsel::ast::Maybe')}<{self.ty(sub[0], who)}, {self.ty(sub[1], who)}>"
        if k == "paren": return f"{self.path('::parsel::ast::Paren')}<{self.ty(sub[0], who)}>"
        if k == "any": return f"{self.path('::parsel::ast::Any')}<{self.ty(sub[0], who)}>"
        if k == "ref": return (f"&{self.life} " if who != "twin" else "") + self.ty(sub[0], who)
        if k == "self": return "Self" if who == "me" and self.rng.random() < .5 else self.me.name + self.params()
        if k == "other": return self.other.name + self.params()
    def field(self, named, vi, fi, f, who, vis):
        rng = self.rng
        a = ""
        if f["rec"]: a += rng.choice(["#[parsel(recursive)] ", "#[parsel(recursive = true)] ", "#[allow(dead_code)] #[parsel(recursive)] /** doc */ "])
        elif rng.random() < .12: a += rng.choice(["#[parsel(recursive = false)] ", "/** a field */ ", "#[cfg(all())] ", "#[cfg(any())] gone: nowhere::Missing, " if named.decl["vs"][vi]["style"] == "named" else "#[cfg(any())] nowhere::Missing, ", "#[allow(dead_code)] ", "#[doc(hidden)] ", "#[rustfmt::skip] ", "#[cfg_attr(all(), doc = \"x, y\")] "])
        t = self.ty(f["ty"], who)
        if rng.random() < .05: t = f"({t})"
        if self.macro is not None: self.macro.append(t); t = f"$t{len(self.macro) - 1}"
        v = rng.choice(["", "pub ", "pub(crate) "]) if vis else ""
        return a + v + (named.fnames[vi][fi] + ": " if named.decl["vs"][vi]["style"] == "named" else "") + t
    def text(self, named, who, derives, gen, where):
        """the declaration itself"""
        rng = self.rng; d = named.decl
        self.macro = [] if self.env == "macro" and who == "me" else None
        def body(vi, vis):
            v = d["vs"][vi]; fs = [self.field(named, vi, j, f, who, vis) for j, f in enumerate(v["fs"])]
            end = "," if fs and rng.random() < .5 else ""
            return "" if v["style"] == "unit" else "(" + ", ".join(fs) + end + ")" if v["style"] == "tuple" else "{ " + ", ".join(fs) + end + " }"
        parts = rng.choice([[derives], [derives[::-1]], [[x] for x in derives], [derives[:1], derives[1:]]])
        s = "".join("#[derive(" + ", ".join("::parsel::" + x for x in p) + ")]\n" for p in parts if p)
        if rng.random() < .1: s += "/// documented\n"
        if named.vnames and named.vnames[0] and rng.random() < .1: s += "#[non_exhaustive]\n"
        s += rng.choice(["", "pub ", "pub(crate) "])
        wh = " " + where if where else ""
        if d["struct"]:
            st = d["vs"][0]["style"]; b = body(0, True)
            s += f"struct {named.name}{gen}" + (f"{wh} {b}" if st == "named" else f"{b}{wh};" if st == "tuple" else f"{wh};")
        else:
            disc = d["vs"] and all(v["style"] == "unit" for v in d["vs"]) and rng.random() < .6
            if disc and rng.random() < .5: s = "#[repr(u8)]\n" + s
            s += f"enum {named.name}{gen}{wh} {{ " + ", ".join((rng.choice(["", "", "", "/** variant */ ", "#[allow(dead_code)] "])) + named.vnames[i] + body(i, False) + (f" = {3 * i + 1}" if disc and rng.random() < .7 else "") for i in range(len(d["vs"]))) + ("," if d["vs"] and rng.random() < .5 else "") + " }"
        if self.macro is not None:
            m = self.macro; self.macro = None
            s = "macro_rules! declare { (" + "; ".join(f"$t{i}:ty" for i in range(len(m))) + ") => {\n" + s + "\n} }\ndeclare!{ " + "; ".join(m) + " }"
        return s
    def pats(self, named, conv=None):
        """arms of a match over all variants"""
        d = named.decl
        for vi, v in enumerate(d["vs"]):
            ctor = named.name if d["struct"] else f"{named.name}::{named.vnames[vi]}"
            xs = [f"x{j}" for j in range(len(v["fs"]))]
            pat = ctor + ("" if v["style"] == "unit" else "(" + ", ".join(xs) + ")" if v["style"] == "tuple" else "{ " + ", ".join(f"{n}: {x}" for n, x in zip(named.fnames[vi], xs)) + " }")
            yield vi, v, pat, xs
    def dumps(self, named, a):
        d = named.decl
        t = self.inst(named.name, a)
        arms = "".join(f"{pat} => crate::help::put(o, {0 if d['struct'] else vi + 1}, &[{', '.join(xs)}]),\n" for vi, v, pat, xs in self.pats(named))
        s = f"impl crate::help::D for {t} {{ fn dump(&self, o: &mut ::std::string::String) {{ match {'self' if d['vs'] else '*self'} {{ {arms} }} }} }}\n"
        return s + f"impl ::core::cmp::PartialEq for {t} {{ fn eq(&self, o: &Self) -> ::core::primitive::bool {{ ::std::string::ToString::to_string(&::parsel::ToTokens::to_token_stream(self)) == ::std::string::ToString::to_string(&::parsel::ToTokens::to_token_stream(o)) }} }}\n"
    def source(self):
        ALL = ["Parse", "ToTokens", "FromStr", "Display"]
        s = []
        fam = self.fam
        if self.short: s += [f"#[allow(unused_imports)] use {x} as {x.split('::')[-1]}Of;" for x in ("crate::help::Pass", "crate::help::Rep", "::std::boxed::Box", "::parsel::ast::Maybe", "::parsel::ast::Paren", "::parsel::ast::Any")]
        if self.env == "decoys":
            mine = {bare(self.me.name), bare(self.twin.name)} | ({bare(self.other.name)} if self.other else set())
            for n, t in (("Ok", "pub struct Ok(pub ());"), ("Err", "pub struct Err(pub ());"), ("Some", "pub struct Some(pub ());"), ("None", "pub struct None;"), ("Result", "pub enum Result {}"), ("Option", "pub struct Option;"), ("core", "pub mod core {}"), ("std", "pub mod std {}"),
                         ("parsel", "pub mod parsel {}"), ("syn", "pub mod syn {}"), ("String", "pub struct String;"), ("Error", "pub struct Error;"), ("Self_", "")):
                if n not in mine and n not in self.map.values(): s.append(t)
        if fam["borrow"]:
            s.append(self.text(self.me, "me", ["ToTokens", "Display"], self.gen, self.where))
            gen = re.sub(r"'\w+(: *'\w+)?,? *", "", self.gen).replace("<>", ""); gen = re.sub(r": *>", ">", gen)
            s.append(self.text(self.twin, "twin", ALL, gen, ""))
        else:
            s.append(self.text(self.me, "me", ALL, self.gen, self.where))
        if self.other: s.append(self.text(self.other, "other", ALL, self.gen, self.where))
        arms = []
        args = fam["spec"]["args"]
        for j, a in enumerate(args):
            r = self.o["args"][j]
            if not r["use"]: continue
            s.append(self.dumps(self.twin, a))
            if self.other: s.append(self.dumps(self.other, a))
            t = self.inst(self.twin.name, a)
            arms.append(f'(b\'r\', {j}) => crate::help::run::<{t}>("dprse", t),')
            if fam["borrow"]:
                conv = []
                for vi, v, pat, xs in self.pats(self.twin):
                    ctor = self.me.name if self.decl["struct"] else f"{self.me.name}::{self.me.vnames[vi]}"
                    def give(f, x):
                        k = f["ty"]["k"]
                        return x if k == "ref" else f"::std::boxed::Box::new(&**{x})" if k == "box" else f"::core::clone::Clone::clone({x})"
                    es = [give(f, x) for f, x in zip(v["fs"], xs)]
                    conv.append(f"{pat} => " + ctor + ("" if v["style"] == "unit" else "(" + ", ".join(es) + ")" if v["style"] == "tuple" else "{ " + ", ".join(f"{n}: {e}" for n, e in zip(self.me.fnames[vi], es)) + " }"))
                arms.append(f"(b'b', {j}) => match ::parsel::parse_str::<{t}>(t) {{ ::core::result::Result::Ok(v) => {{ let b: {self.inst(self.me.name, a, chr(39) + '_')} = match &v {{ {', '.join(conv)} }}; crate::help::shown(&b) }}, ::core::result::Result::Err(_) => ::std::string::String::from(\"{{}}\") }},")
        # which of the traits it has, for which arguments
        fl = []
        for a in args:
            t = self.inst(self.me.name, a, "'static" if self.life else None)
            fl.append("[" + ", ".join(f"<crate::help::Probe<{t}>>::{c}" for c in ("PARSE", "PRINT", "READ", "SHOW")) + "]")
        s.append(f"pub fn go(what: ::core::primitive::u8, arg: ::core::primitive::usize, t: &::core::primitive::str) -> ::std::string::String {{ #[allow(unused_imports)] use crate::help::No as _; match (what, arg) {{ (b'f', _) => crate::help::flags(&[{', '.join(fl)}]),\n" + "\n".join(arms) + "\n_ => ::std::string::String::new() } }")
        body = "\n".join(x for x in s if x)
        if self.env == "fn":
            body = f"pub fn go(what: ::core::primitive::u8, arg: ::core::primitive::usize, t: &::core::primitive::str) -> ::std::string::String {{\n{body}\ngo(what, arg, t)\n}}"
        return body + "\n"

# ---------------------------------------------------------------- comparing
def spans(ws, rng):
    """text of tokens and where they are"""
    t, pos, line, col = "", [], 1, 0
    def put(s):
        nonlocal t, line, col
        for ch in s:
            t += ch
            if ch == "\n": line += 1; col = 0
            else: col += 1
    put(rng.choice(["", " ", "\n"]))
    for w in ws:
        w = {"w": rng.choice(["a", "word", "x1", "b"])}.get(w, w)
        a = [line, col]; put(w); pos.append((w, a + [line, col])); put(rng.choice([" ", " ", "\n", "  "]))
    return t, pos
def same(tr, d, pos):
    """a tree of the specification and one of the real code"""
    k, n, i, cs = tr
    if k == "tok": return d[0] == "tok" and d[1:] == pos[i - 1][1]
    if k == "group":
        return d[0] == "group" and d[1:3] == pos[i - 1][1][:2] and d[3:5] == pos[n - 1][1][2:] and same(cs[0], d[5], pos)
    if k == "node": return d[0] == "node" and d[1] == n and len(d[2]) == len(cs) and all(same(x, y, pos) for x, y in zip(cs, d[2]))
    return d[0] == k and len(d[1]) == len(cs) and all(same(x, y, pos) for x, y in zip(cs, d[1]))
def judge(dc, r, a, pos):
    if a["r"] not in ("ok", "err"): return f"no answer: {a}"
    if a.get("ent") != [True, True]: return "reading from a string by another route gives something else"
    if r["q"] == "ok":
        if a["r"] != "ok": return f"not accepted: {a['m']!r}"
        if not same(r["tr"], a["d"], pos): return "another value"
        if [[w, *p] for w, p in pos] != [[x[0].rstrip("~"), *x[1:]] for x in a["p"]]: return "printed differently"
        if a["rt"] != [True] * 3: return "what is printed does not read back"
        if a["disp"].split() != [w for w, _ in pos] and "".join(a["disp"].split()) != "".join(w for w, _ in pos): return "shown differently"
        return None
    if a["r"] != "err": return "accepted"
    ls = a["m"].split("\n"); path = []
    while ls and ls[0].startswith("error parsing "):
        m = re.fullmatch(r"error parsing (.*), caused by:", ls[0])
        if not m: break
        path.append("::".join(bare(x) for x in m.group(1).split("::"))); ls = ls[1:]
    want = [(dc.twin if who == 1 else dc.other).label(v, f) for who, v, f in r["path"]]
    if path != want: return f"the error is in {path} instead of {want}"
    at = [1, 0, 1, 0] if r["at"] == 0 else pos[r["at"] - 1][1]
    group = r["at"] > 0 and pos[r["at"] - 1][0] == "("        # syn locates a left-over group as a whole
    if a["s"] != at and not (group and a["s"][:2] == at[:2]): return f"the error is at {a['s']} instead of {at}"
    return None

# ---------------------------------------------------------------- compiling
def compile_all(name, decls, bins):
    files = {"lib.rs": LIB.replace("crate::", "crate::")}
    groups = [decls[k::bins] for k in range(bins)]
    groups = [g for g in groups if g]
    for k, g in enumerate(groups):
        mods = "\n".join(f'#[path = "../d{d.i}.rs"] mod d{d.i};' for d in g)
        files[f"bin/b{k}.rs"] = "#![allow(warnings)]\npub use %s::help;\n%s\nfn dispatch(f: &[&str]) -> String { let t = harness::unhex(f[3]); let (w, a) = (f[0].as_bytes()[0], f[2].parse().unwrap()); match f[1] {\n%s\n_ => String::new() } }\nfn main() { harness::serve(dispatch) }\n" % (
            name, mods, "\n".join(f'"{d.i}" => d{d.i}::go(w, a, &t),' for d in g))
        for d in g: files[f"d{d.i}.rs"] = d.source()
    d = package(name, files)
    drop_stale()
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--message-format=json", "--keep-going"], cwd=d, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    errs = {}; other = []
    for l in p.stdout.decode().splitlines():
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error": continue
        ms = m["message"]
        if not ms["spans"] and "aborting due to" in ms["message"]: continue
        hit = re.findall(r"/d(\d+)\.rs", json.dumps(ms))
        if hit: errs.setdefault(int(hit[0]), []).append(ms["rendered"])
        else: other.append(ms["rendered"])
    if other or (p.returncode != 0 and not errs): raise ToolError("the harness does not build:\n" + ("\n".join(other) or p.stderr.decode())[-5000:])
    return d, groups, errs

# ---------------------------------------------------------------- unions must be rejected
def unions(rep, rng):
    out = {}
    src = {}
    shapes = ["union NAME { f: ::core::primitive::u32 }", "union NAME { a: ::core::primitive::u32, b: [::core::primitive::u8; 4] }", "pub union NAME<T: ::core::marker::Copy> { a: T, r#type: () }",
              "union NAME { a: ::core::mem::ManuallyDrop<::parsel::ast::Word> }", "union NAME { a: ::parsel::syn::Token![+], b: ::parsel::syn::Token![-] }"]
    i = 0
    for s in shapes:
        for t in ("Parse", "ToTokens"):
            i += 1; src[i] = (t, f"#[derive(::parsel::{t})] " + s.replace("NAME", rng.choice(["Node", "Result", "Word"])))
    files = {"main.rs": "#![allow(warnings)]\n" + "\n".join(f"mod u{i};" for i in src) + "\nfn main() {}\n"}
    files.update({f"u{i}.rs": x + "\n" for i, (_, x) in src.items()})
    d = package("derunions", files)
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--message-format=json"], cwd=d, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    bad = set()
    for l in p.stdout.decode().splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and "derunions" in m.get("package_id", ""):
            for h in re.findall(r"src/u(\d+)\.rs", json.dumps(m["message"])): bad.add(int(h))
    if not bad and p.returncode != 0: raise ToolError("the unions do not build for another reason:\n" + p.stderr.decode()[-3000:])
    for i, (t, x) in src.items():
        if i not in bad: rep.violation(f"deriving {t} for a union is accepted", source=x)
    rep.cov["unions_rejected"] = len(bad)

# ---------------------------------------------------------------- the check
def used(fam, vs, n):
    """is the n-th parameter used?"""
    def u(t): return (t["k"] in ("param", "pass", "proj") and t["n"] == n) or any(u(x) for x in t["sub"])
    return any(u(f["ty"]) for v in vs for f in v["fs"])
def refs(t): return t["k"] == "ref" or any(refs(x) for x in t["sub"])
def legal(fam, vs):
    """would Rust accept the declaration whatever is derived? (parameters must be used, types be finite)"""
    for n in range(1, fam["params"] + 1):
        if "number" in fam["name"] and (fam["params"] == 1 or n == 2): continue
        if not used(fam, vs, n): return False
    if fam["borrow"] and not any(refs(f["ty"]) for v in vs for f in v["fs"]): return False
    if fam["name"] == "recgeneric" or fam["name"] == "mutual4":
        # what is recursive must not be the only use of a parameter
        if not any(f["ty"]["k"] == "param" for v in vs for f in v["fs"]): return False
    return True

def run(pid):
    rep = Report(pid); rng = random.Random(SEED * 1000 + 24)
    fams = families(rng, thorough())
    outs, st = tlc("MCDerive", dict(DERIVE_JSON=jsonfile(dict(fams=[f["spec"] for f in fams]), "C24-mc.json")), heap="12g"); rep.states(st)
    log(f"C24: {len(outs)} declarations enumerated")
    decls = []
    for k, fam in enumerate(fams, 1):
        mine = sorted((o for o in outs if o["f"] == k and legal(fam, o["vs"])), key=lambda o: json.dumps(o["vs"], sort_keys=True))
        if fam["name"] == "enum": mine = [o for o in mine if not o["vs"]] * 2 + mine
        for o in (mine[:2] + rng.sample(mine[2:], min(fam["keep"], len(mine) - 2)) if len(mine) > 2 else mine): decls.append(Decl(len(decls), fam, o, rng))
    rep.cov["declarations_enumerated"] = len(outs); rep.cov["declarations_compiled"] = len(decls)
    d, groups, errs = compile_all("chkderive", decls, 8)
    log(f"C24: {len(decls)} declarations compiled, {len(errs)} do not")
    for i, e in errs.items():
        rep.violation("a declaration with derives does not compile", family=decls[i].fam["name"], error=e[0][:1500], source=open(os.path.join(d, "src", f"d{i}.rs")).read()[:3000])
    unions(rep, rng)
    if errs: return rep
    def go(k):
        g = groups[k]; r2 = random.Random(SEED * 77 + k)
        lines, meta = [], []
        for dc in g:
            lines.append(f"f\t{dc.i}\t0\t"); meta.append(("flags", dc, None, None, None))
            ins = dc.fam["spec"]["inputs"]
            for j, a in enumerate(dc.o["args"]):
                if not a["use"]: continue
                idx = [i for i, r in enumerate(a["res"]) if r["q"] != "odd"]
                good = [i for i in idx if a["res"][i]["q"] == "ok"]; bad = [i for i in idx if a["res"][i]["q"] == "err"]
                if not thorough(): good, bad = r2.sample(good, min(8, len(good))), r2.sample(bad, min(10, len(bad)))
                for i in good + bad:
                    t, pos = spans(ins[i], r2)
                    lines.append(f"r\t{dc.i}\t{j}\t{t.encode().hex()}"); meta.append(("read", dc, a["res"][i], t, pos))
                    if dc.fam["borrow"] and a["res"][i]["q"] == "ok":
                        lines.append(f"b\t{dc.i}\t{j}\t{t.encode().hex()}"); meta.append(("borrow", dc, a["res"][i], t, pos))
        return meta, Run(os.path.join(TARGET, "debug", f"b{k}")).all(lines), len(lines)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(go, range(len(groups))))
    n = ok = 0
    for meta, ans, want in res:
        for (what, dc, r, t, pos), a in zip(meta, ans):
            why = None
            if what == "flags":
                exp = [[x["parse"], x["print"], x["parse"] and not dc.fam["borrow"], x["print"]] for x in dc.o["args"]]
                if a.get("flags") != exp: why = f"for arguments {dc.fam['spec']['args']}, Parse/ToTokens/FromStr/Display are {a.get('flags')} instead of {exp}"
            elif what == "read": why = judge(dc, r, a, pos); ok += r["q"] == "ok"
            else:
                if a.get("r") != "ok" or [[w, *p] for w, p in pos] != [[x[0].rstrip("~"), *x[1:]] for x in a["p"]]: why = f"printing a borrowing node: {a}"
            n += 1
            if why: rep.violation(why, family=dc.fam["name"], text=t, got=a, source=open(os.path.join(d, "src", f"d{dc.i}.rs")).read()[:3000])
        if len(ans) < want and not rep.viol: raise ToolError("incomplete run")
    rep.traces(n); rep.cov["readings_replayed"] = n; rep.cov["accepted"] = ok
    rep.cov["families"] = {f["name"]: sum(x.fam is f for x in decls) for f in fams}
    for dc in rng.sample(decls, 2): rep.sample(dict(direction="spec->code", family=dc.fam["name"], declaration=dc.o["vs"], source=open(os.path.join(d, "src", f"d{dc.i}.rs")).read()[:700]))
    return rep
