"""Grammar families, per property, and a generator of random well-formed grammars."""
import random
from gram import *

def T(*xs): return [(str(i), x) for i, x in enumerate(xs)]
def V(name, *xs): return (name, "tuple" if xs else "unit", T(*xs))
def VN(*n, **kw): return (n[0], "named", list(kw.items()))
def st(name, *xs): return S(name, "tuple" if xs else "unit", T(*xs))
def sn(*n, **kw): return S(n[0], "named", list(kw.items()))
a, b, c, d = K("a"), K("b"), K("c"), K("d")
REST = any_(WORD)

def deep_expr():
    """expression grammar with precedence levels, unary operators, postfix and parentheses"""
    return [st("Expr", right(P("="), R("Add"))),
            st("Add", left(either(P("+"), P("-")), R("Mul"))),
            st("Mul", left(either(P("*"), P("/")), R("Unary"))),
            E("Unary", [VN("Neg", op=P("-"), e=box(R("Unary"))), V("Post", R("Post"))]),
            sn("Post", base=R("Atom"), tail=any_(R("Tail"))),
            E("Tail", [VN("Call", args=par(punct(R("Expr"), P(",")))), VN("Index", ix=grp("[", box(R("Expr")))), VN("Field", dot=P("."), name=IDENT)]),
            E("Atom", [V("Num", LIT("LitUint")), V("Name", IDENT), V("Group", par(box(R("Expr")))),
                       VN("Block", stmts=grp("{", punct(R("Expr"), P(";"))))])]

def json_gram():
    return [E("Json", [VN("Obj", m=grp("{", punct(R("Member"), P(",")))), V("Arr", grp("[", punct(R("Json"), P(",")))),
                       V("S", LIT("LitStr")), V("N", LIT("Lit")), V("Null", K("null"))]),
            sn("Member", key=LIT("LitStr"), colon=P(":"), value=R("Json"))]

def C01():
    return [
        # the first alternative matches nothing: it is chosen all the same
        Gram([sn("Top", e=either(any_(a), b), rest=REST)], R("Top"), "abc", 4), Gram([sn("Top", e=either(maybe(a, b), either(c, a)), rest=REST)], R("Top"), "abc", 4),
        Gram([sn("Top", e=either(either(EMPTY, a), b), f=R("F"), rest=REST), E("F", [V("A", any_(par(a))), V("B", b), V("C", par(REST)), V("D")])], R("Top"), ["a", "b", "("], 4),
        Gram([], any_(par(either(any_(P("+")), punct(a, P(","))))), ["a", "+", ",", "("], 6, 5),
        # a shorter alternative listed first wins over a longer one
        Gram([E("E", [V("Short", a), V("Long", a, b), V("Other", b)]), sn("Top", e=R("E"), rest=REST)], R("Top"), "abc", 6),
        Gram([E("E", [V("Long", a, b, c), V("Mid", a, b), V("Short", a)]), sn("Top", e=R("E"), rest=REST)], R("Top"), "abc", 6),
        # the same token in every alternative
        Gram([E("E", [V("X", IDENT), V("Y", WORD), V("Z", a)]), sn("Top", x=R("E"), y=R("E"))], R("Top"), ["a", "b", "fn"], 4),
        # alternation inside repetition, after failing deep inside a group
        Gram([E("E", [V("G", par(R("E2")), a), V("H", par(any_(WORD)), b), V("W", c)]), E("E2", [V("P", a, b), V("Q", a)]), sn("Top", es=any_(R("E")))],
             R("Top"), ["a", "b", "c", "("], 6),
        # two-way alternations, nested both ways
        Gram([sn("Top", e=either(either(R("T2"), a), either(R("T3"), b)), rest=REST), ] + T2d, R("Top"), "abc", 6),
        # both alternatives long, failing late, and nothing else
        Gram([sn("Top", e=either(R("L3"), R("R3")), rest=REST), st("L3", WORD, WORD, P("+"), WORD), st("R3", WORD, WORD, any_(P("-")))], R("Top"), ["a", "b", "+", "-"], 5),
        # empty choice, alone and within others
        Gram([E("Void", []), E("E", [V("N", R("Void")), V("A", a), V("M", R("Void"), a)]), sn("Top", e=any_(R("E")), v=maybe(R("Void"), a))], R("Top"), "ab", 5),
        Gram([E("Void", [])], R("Void"), "ab", 2),
        # an alternative that always succeeds hides the later ones
        Gram([E("E", [V("A", a, b), V("Nil", EMPTY), V("B", b)]), sn("Top", e=R("E"), rest=REST)], R("Top"), "ab", 6),
        Gram([E("E", [V("A", any_(a)), V("B", any_(b))]), sn("Top", e=R("E"), sep=P(","), f=R("E"), g=REST)], R("Top"), ["a", "b", ","], 6, 5),
        # unit-like, named and positional variants of equal prefix, many alternatives
        Gram([E("E", [VN("A", x=a, y=P("+")), V("B", a, P("-")), VN("C", x=a, y=P("*"), z=a), V("D", a, P("*")), V("F", a)]), sn("Top", es=sep(R("E"), P(",")))],
             R("Top"), ["a", "+", "-", "*", ","], 5),
        # alternation as prefix, separator, operand and operator
        Gram([E("Op", [V("Le", P("<="), ), V("Lt", P("<"))]), E("At", [V("Call", IDENT, par(EMPTY)), V("Id", IDENT)]), sn("Top", e=left(R("Op"), R("At")))],
             R("Top"), ["x", "<", "<~", "=", "("], 6, 5),
        # an alternation all of whose alternatives fail leaves everything to what follows
        Gram([sn("Top", e=attempt(either(R("L3"), R("R3"))), rest=REST), st("L3", a, b, c), st("R3", a, a, b)], R("Top"), "abc", 6),
        Gram([sn("Top", e=attempt(R("E")), rest=REST), E("E", [V("X", a, b, c), V("Y", a, a), V("Z", b, a)])], R("Top"), "abc", 6),
        Gram([sn("Top", e=attempt(either(either(R("T2"), par(a)), either(R("T3"), R("R3")))), f=attempt(R("E")), rest=any_(R("TT")))] + T2d
             + [st("R3", par(b), a), E("E", [V("P", par(any_(a)), b), V("Q", a, par(b))]), E("TT", [V("W", WORD), V("G", par(any_(WORD)))])], R("Top"), "ab(", 6),
        Gram([sn("Top", es=any_(a), e=attempt(either(R("L3"), R("E"))), fs=any_(b), f=attempt(R("E")), rest=REST), st("L3", b, b, a), E("E", [V("X", b, a, a), V("Y", b, c)])], R("Top"), "abc", 6),
        Gram([sn("Top", e=attempt(R("One")), f=attempt(R("Two")), rest=REST), E("One", [VN("V", x=a, y=maybe(b, a), z=c)]), E("Two", [V("V", R("One")), V("W", b, b)])], R("Top"), "abc", 6),
        # recursion through alternatives
        Gram([E("E", [VN("Cons", h=a, t=box(R("E"))), VN("Wrap", g=par(box(R("E")))), V("Nil", b)])], R("E"), ["a", "b", "("], 6),
    ]
T2d = [st("T2", a, b), st("T3", b, a)]

def C02():
    return [
        Gram([sn("Top", z=WORD, m=WORD, a=WORD)], R("Top"), ["a", "b", "c", "fn"], 4),
        Gram([st("Top", WORD, WORD, WORD, WORD)], R("Top"), ["a", "b", "c"], 5),
        Gram([S("Top", "unit", [])], R("Top"), ["a"], 2),
        Gram([S("Top", "named", []), S("T2", "tuple", [])], R("Top"), ["a"], 2),
        # a field never gives back what it took
        Gram([sn("Top", xs=any_(a), y=a)], R("Top"), "ab", 5),
        Gram([sn("Top", xs=maybe(a), y=a, z=b)], R("Top"), "ab", 5),
        Gram([sn("Top", xs=sep(a, P(",")), y=P(","), z=b)], R("Top"), ["a", "b", ","], 6),
        Gram([E("E", [VN("V", second=WORD, first=P("+"), third=WORD), V("W", WORD, WORD, P("-")), VN("X", x=P("-"), a=WORD)])], R("E"), ["a", "b", "+", "-"], 4),
        # nested sequences, empty ones in between
        Gram([sn("Top", x=R("In"), n=R("Nil"), y=R("In")), st("In", WORD, P("+")), S("Nil", "unit", [])], R("Top"), ["a", "b", "+"], 5),
        Gram([st("Top", P("<"), any_(WORD), P(">"), par(R("Sn")), IDENT)] + SN0, R("Top"), ["<", ">", "a", "(", "fn"], 6),
        # names of every kind
        Gram([sn("Top", _x=WORD, x=WORD, __=WORD, _1=WORD)], R("Top"), ["a", "b", "fn"], 5),
        Gram([sn("Top", **{"r#fn": WORD, "r#type": P("+"), "tokens": WORD, "_tokens": P("-")})], R("Top"), ["a", "b", "+", "-"], 5),
        Gram([E("E", [VN("_A", _x=WORD, y=P("+")), VN("B", y=WORD, _y=P("-")), V("__", WORD, WORD), VN("r#Cc", **{"r#in": P("+"), "input": WORD})])], R("E"), ["a", "b", "+", "-"], 4),
        Gram([sn("Top", a0=WORD, a1=P("+"), a2=WORD, a3=P("-"), a4=WORD, a5=P("*"), a6=WORD)], R("Top"), ["a", "+", "-", "*"], 7, 5),
        Gram([sn("Top", r=par(R("In2")), s=grp("[", R("In2")), t=R("In2")), sn("In2", q=maybe(WORD), p=maybe(P("+"), WORD))], R("Top"), ["a", "+", "(", "["], 7, 6),
    ]
SN0 = [sn("Sn", y=WORD, x=WORD)]

def C03():
    G = par(WORD)      # leaves something behind when the group holds more
    return [
        Gram([], G, ["a", "("], 6), Gram([], WORD, ["a", "("], 4), Gram([], EMPTY, ["a", "("], 4),
        Gram([sn("Top", x=G, y=G)], R("Top"), ["a", "("], 8),
        # speculative groups: alternative, prefix, separator, item, operator
        Gram([E("E", [V("A", G, P("+")), V("B", G, P("-")), V("C", par(any_(WORD)))])], R("E"), ["a", "+", "-", "("], 6),
        Gram([sn("Top", m=maybe(G, P("+")), n=maybe(P("-"), G))], R("Top"), ["a", "+", "-", "("], 7, 6),
        Gram([sn("Top", x=any_(G), y=any_(grp("[", WORD)))], R("Top"), ["a", "(", "["], 8, 7),
        Gram([], sep(a, G), ["a", "("], 8, 7), Gram([], left(G, a), ["a", "("], 8, 7), Gram([], right(a, G), ["a", "("], 8, 7),
        Gram([], punct(G, par(EMPTY)), ["a", "("], 8, 7),
        Gram([st("Q", G, P("+"))], either(R("Q"), par(any_(WORD))), ["a", "(", "+"], 6),
        # nested leftovers
        Gram([], par(grp("[", maybe(WORD))), ["a", "(", "["], 7), Gram([st("Q", WORD, par(maybe(WORD)))], par(R("Q")), ["a", "("], 8),
        # leftovers in a rejected alternative are forgotten
        Gram([E("E", [V("A", par(EMPTY), P("+")), V("B", par(EMPTY), P("-")), V("C", par(any_(either(WORD, par(EMPTY)))))])], R("E"), ["a", "+", "-", "("], 6),
        Gram([E("E", [V("A", R("F"), P("+")), V("C", par(any_(either(WORD, P("+")))), P("+")) ]), E("F", [V("X", par(WORD)), V("Y", WORD)])], R("E"), ["a", "+", "("], 7, 6),
        # several levels of forks accepted one inside the other
        Gram([sn("Top", x=any_(either(R("Mb"), grp("[", EMPTY))))] + MB, R("Top"), ["a", "(", "["], 7, 6),
        Gram(deep_expr(), R("Expr"), ["x", "1", "+", "(", "["], 5),
    ] + leftovers()
def leftovers():
    """every kind of production, at the top and in every kind of group, with something left over behind it"""
    gs = []
    for D in ["", "(", "[", "{"]:
        def w(x): return grp(D, x) if D else x
        dl = [D] if D else []
        gs += [Gram([], w(WORD), ["a"] + dl + [",", ";", ".", ":", "+", "=", "1", '"s"'], 3),
               Gram([], w(a), ["a", "b"] + dl + [",", ";"], 4),
               Gram([], w(maybe(P(","), a)), ["a"] + dl + [",", ";"], 4), Gram([], w(any_(a)), ["a"] + dl + [",", ";"], 4),
               Gram([], w(punct(a, P(","))), ["a"] + dl + [",", ";"], 5), Gram([], w(sep(a, P(","))), ["a"] + dl + [",", ";"], 5),
               Gram([], w(left(P("+"), a)), ["a"] + dl + [",", "+"], 5), Gram([], w(right(P("+"), a)), ["a"] + dl + [";", "+"], 5),
               Gram([st("Q", a, P(","))], w(either(R("Q"), a)), ["a"] + dl + [",", ";"], 4),
               Gram([sn("Q", x=a, y=any_(grp(D or "(", a))), E("E", [V("A", R("Q"), P(";")), V("B", a)])], w(R("E")), ["a", D or "(", ",", ";"], 5),
               Gram([], w(LIT("Lit")), ["1", "-"] + dl + [",", ";"], 4), Gram([], w(EOF), ["a"] + dl + [",", ";"], 3), Gram([], w(EMPTY), ["a"] + dl + [",", ";"], 3)]
    return gs
MB = [st("Mb", par(any_(either(grp("{", WORD), WORD))), maybe(par(EMPTY), WORD))]

def C04():
    toks = ["x", "fn", "1", "-", '"s"', "+", ",", "(", "["]
    return [
        Gram(deep_expr(), R("Expr"), ["x", "1", "+", "-", ",", "(", "["], 5, 4),
        Gram(json_gram(), R("Json"), ['"k"', "1", "null", ",", ":", "{", "["], 6, 4),
        Gram([E("E", [V("A", left(P("+"), LIT("Lit"))), V("B", IDENT, par(punct(IDENT, P(",")))), V("C", any_(par(any_(IDENT))))])], R("E"), ["x", "1", "-", "+", ",", "("], 5, 4),
        Gram([sn("Top", l=any_(LIT("Lit")), o=maybe(P("=>"), IDENT), e=EOF)], R("Top"), ["1", "-", "2.5", '"s"', "true", "=~", ">", "x"], 4),
        Gram([], many(either(P("<="), either(P("<"), P("=")))), ["<", "<~", "=", "=~"], 6),
        Gram([], many(either(P("=="), either(P("="), either(P("->"), either(P("-"), P(">")))))), ["-", "-~", "=", "=~", ">"], 5),
        Gram([], punct(LIT("LitInt"), P(",")), ["1", "-", ","], 6), Gram([], sep(LIT("LitFloat"), P(";")), ["1.5", "-", ";"], 5),
        Gram([], right(P("::"), IDENT), ["x", ":", ":~"], 6),
        Gram([sn("Top", a=maybe(par(any_(IDENT)), grp("{", punct(IDENT, P(";")))), b=any_(P("*")), c=grp("[", EMPTY))], R("Top"), ["x", ";", "*", "(", "{", "["], 6, 5),
        Gram([sn("Top", a=many(R("I")))] + [E("I", [V("S", P("-"), LIT("LitUint")), V("L", LIT("Lit")), V("B", grp("{", box(R("Top"))))])], R("Top"), ["1", "-", "'c'", "{"], 6, 5),
        # a prefix of any length with little or nothing behind it
        Gram([], maybe(sep(IDENT, P(","))), ["x", ",", "fn"], 5), Gram([], maybe(left(P("+"), IDENT), any_(P("*"))), ["x", "+", "*"], 5),
        Gram([sn("Top", m=par(maybe(R("P"), maybe(P("*")))), n=any_(P("*"))), st("P", P("+"), any_(IDENT))], R("Top"), ["x", "+", "*", "("], 5),
    ]

def C05():
    return [
        # a prefix of any length
        Gram([sn("Top", m=maybe(sep(a, P(",")), any_(P("*"))), n=REST)], R("Top"), ["a", "b", ",", "*"], 5),
        Gram([sn("Top", m=maybe(a, b), rest=REST)], R("Top"), "abc", 6),
        Gram([sn("Top", m=maybe(a), rest=REST)], R("Top"), "abc", 5),
        # prefix of several tokens, group, alternation
        Gram([sn("Top", m=maybe(R("P"), P("+")), rest=REST), st("P", a, b)], R("Top"), ["a", "b", "+"], 6),
        Gram([sn("Top", m=maybe(par(a), b), n=any_(par(REST)))], R("Top"), ["a", "b", "("], 7, 6),
        Gram([sn("Top", m=maybe(R("P"), c), rest=REST), E("P", [V("X", a, b), V("Y", a)])], R("Top"), "abc", 6),
        # commitment inside alternatives, repetitions, lists, groups
        Gram([E("E", [V("A", maybe(a, b), c), V("B", REST)])], R("E"), "abc", 6),
        Gram([sn("Top", xs=any_(R("I")), rest=REST), st("I", c, maybe(a, b))], R("Top"), "abc", 6),
        Gram([st("I", a, maybe(P("="), b))], sep(R("I"), P(",")), ["a", "b", "=", ","], 6),
        Gram([st("I", a, maybe(P("="), b))], punct(R("I"), P(",")), ["a", "b", "=", ","], 6, 5),
        # nested optionals; several in a row
        Gram([sn("Top", m=maybe(a, maybe(b, c)), n=maybe(b), o=maybe(c, a))], R("Top"), "abc", 6),
        Gram([sn("Top", m=maybe(either(P("=="), P("=")), IDENT), n=maybe(P("=>"), IDENT))], R("Top"), ["=", "=~", ">", "x"], 6),
        Gram([st("Top", maybe(P("-")), LIT("LitUint"))], R("Top"), ["-", "1", "x"], 4),
        # the rest may be empty although the prefix is there
        Gram([sn("Top", m=maybe(a, any_(b)), n=maybe(a, EOF), o=REST)], R("Top"), "ab", 6),
        Gram([], par(maybe(a, b)), ["a", "b", "("], 6),
        Gram([E("E", [V("N", maybe(a, box(R("E"))), b)])], R("E"), "ab", 7),
    ]

def C06():
    return [
        Gram([sn("Top", xs=any_(a), ys=any_(b), rest=REST)], R("Top"), "abc", 6),
        # an item is taken whole or not at all
        Gram([sn("Top", xs=any_(R("I")), rest=REST), st("I", a, b)], R("Top"), "abc", 7),
        Gram([sn("Top", xs=any_(R("I")), rest=any_(either(WORD, P("+")))), E("I", [V("X", a, P("+"), a), V("Y", b)])], R("Top"), ["a", "b", "+"], 6),
        Gram([sn("Top", xs=any_(par(any_(a))), rest=any_(par(REST)))], R("Top"), ["a", "b", "("], 7, 6),
        Gram([], punct(IDENT, P(",")), ["x", ",", "fn"], 7), Gram([st("I", IDENT, IDENT)], punct(R("I"), P(";")), ["x", ";", "y"], 6),
        Gram([], many(IDENT), ["x", "y", ","], 6), Gram([st("I", IDENT, P("="), IDENT)], many(R("I")), ["x", "=", "y"], 7),
        Gram([], par(punct(IDENT, P(","))), ["x", ",", "("], 7, 6), Gram([sn("Top", x=grp("{", many(IDENT)), y=grp("[", punct(IDENT, P(",")))), ], R("Top"), ["x", ",", "{", "["], 7, 6),
        Gram([sn("Top", x=any_(R("Two")), y=REST)] + ANY2, R("Top"), "abc", 6),
        Gram([sn("I", x=a, xs=any_(b))], punct(R("I"), P(",")), ["a", "b", ","], 6),
        Gram([], punct(par(many(IDENT)), P(",")), ["x", ",", "("], 7, 6),
        Gram([sn("Top", xs=any_(P("<")), y=any_(P("<=")))], R("Top"), ["<", "<~", "="], 6),
        # separators that are alternations or groups
        Gram([], punct(IDENT, either(P(","), par(EMPTY))), ["x", ",", "("], 7, 6),
        Gram([E("T", [VN("Node", v=IDENT, c=par(any_(R("T")))), V("Leaf", IDENT)])], any_(R("T")), ["x", "("], 8, 7),
    ]
ANY2 = [sn("Two", x=a, ys=any_(b), z=c)]

def C07():
    return [
        Gram([], sep(IDENT, P(",")), ["x", ",", ";"], 7), Gram([sn("Top", l=sep(a, P(",")), rest=any_(either(WORD, P(","))))], R("Top"), ["a", "b", ","], 6),
        Gram([sn("Top", l=sep(R("I"), P("+")), r=any_(either(WORD, P("-")))), st("I", a, P("-"), b)], R("Top"), ["a", "b", "+", "-"], 7, 6),
        # separators of several tokens that share a prefix with what follows
        Gram([sn("Top", l=sep(a, R("Sp")), r=any_(either(P("+"), P("-")))), st("Sp", P("+"), P("-"))], R("Top"), ["a", "+", "-"], 7),
        Gram([sn("Top", l=sep(IDENT, P("::")), r=maybe(P(":"), IDENT))], R("Top"), ["x", ":", ":~"], 7),
        Gram([], sep(a, par(b)), ["a", "b", "("], 8, 7), Gram([], sep(par(sep(a, P(","))), P(";")), ["a", ",", ";", "("], 7, 6),
        # separators that may be empty
        Gram([], sep(a, maybe(P(","))), ["a", "b", ","], 7),
        Gram([sn("Top", l=sep(a, EMPTY))], R("Top"), "ab", 5), Gram([], sep(a, NOTEOF), "ab", 5),
        Gram([E("E", [V("A", sep(a, P(",")), P(";")), V("B", sep(WORD, P(",")))])], R("E"), ["a", "b", ",", ";"], 6, 5),
        Gram([sn("Top", xs=any_(R("I"))), sn("I", l=sep(IDENT, P(",")), e=P(";"))], R("Top"), ["x", ",", ";"], 7, 6),
        Gram([], sep(either(P("-"), IDENT), either(P("-"), P("+"))), ["x", "-", "+"], 7),
        Gram([], sep(maybe(a, b), P(",")), ["a", "b", ","], 6),
    ]

def C08():
    return [
        Gram([], left(P("-"), IDENT), ["x", "y", "-"], 9, 7), Gram([], right(P("-"), IDENT), ["x", "y", "-"], 9, 7),
        Gram([], sep(IDENT, P("-")), ["x", "y", "-"], 7),
        Gram([], left(either(P("+"), P("-")), LIT("LitUint")), ["1", "+", "-"], 8, 7), 
        Gram([E("Op", [V("A", P("=")), V("B", P("-"))])], right(R("Op"), IDENT), ["x", "=", "-"], 8, 7),
        # precedence levels
        Gram([st("Add", left(P("+"), R("Mul"))), st("Mul", left(P("*"), LIT("LitUint")))], R("Add"), ["1", "+", "*"], 8, 7),
        Gram([st("Imp", right(P("->"), R("Or"))), st("Or", left(P("|"), R("At"))), E("At", [V("V", IDENT), V("G", par(box(R("Imp"))))])], R("Imp"), ["x", "-~", ">", "|", "("], 7, 6),
        Gram([st("Asg", right(P("="), R("Pow"))), st("Pow", right(P("^"), R("Neg"))), E("Neg", [VN("N", m=P("-"), e=box(R("Neg"))), V("A", IDENT)])], R("Asg"), ["x", "=", "^", "-"], 7, 6),
        Gram([], left(P(","), right(P("="), IDENT)), ["x", ",", "="], 8, 7), Gram([], right(P(","), left(P("="), IDENT)), ["x", ",", "="], 8, 7),
        Gram([sn("Top", e=left(P("+"), IDENT), rest=any_(either(WORD, P("+"))))], R("Top"), ["x", "fn", "+"], 7),
        Gram([sn("Top", e=right(P("+"), IDENT), rest=any_(either(WORD, P("+"))))], R("Top"), ["x", "fn", "+"], 7),
        Gram([st("I", IDENT, maybe(P("?")))], left(par(EMPTY), R("I")), ["x", "?", "("], 8, 7),
        Gram(deep_expr(), R("Expr"), ["x", "=", "+", "*", "("], 6, 5),
    ]

def C09():
    return [
        Gram([], par(WORD), ["a", "(", "[", "{"], 6), Gram([], grp("[", WORD), ["a", "(", "[", "{"], 6), Gram([], grp("{", WORD), ["a", "(", "[", "{"], 6),
        Gram([sn("Top", x=par(any_(WORD)), y=grp("[", any_(WORD)), z=grp("{", any_(WORD)))], R("Top"), ["a", "(", "[", "{"], 8, 7),
        # the content must not see what follows the group
        Gram([sn("Top", x=par(any_(a)), y=any_(a))], R("Top"), ["a", "b", "("], 7),
        Gram([sn("Top", x=par(R("I")), y=b), st("I", a, b)], R("Top"), ["a", "b", "("], 7),
        Gram([sn("Top", x=grp("[", punct(IDENT, P(","))), y=P(","), z=IDENT)], R("Top"), ["x", ",", "["], 7),
        Gram([sn("Top", x=grp("{", left(P("+"), IDENT)), y=maybe(P("+"), IDENT))], R("Top"), ["x", "+", "{"], 7),
        Gram([sn("Top", x=par(EOF), y=grp("[", EMPTY), z=grp("{", NOTEOF))], R("Top"), ["a", "(", "[", "{"], 7, 6),
        # nesting, same and mixed delimiters; alternatives by delimiter
        Gram([E("E", [V("P", par(box(R("E")))), V("B", grp("[", box(R("E")))), V("C", grp("{", box(R("E")))), V("L", WORD)])], R("E"), ["a", "(", "[", "{"], 8, 7),
        Gram([E("E", [V("P", par(any_(R("E")))), V("B", grp("[", any_(R("E")))), V("L", WORD)])], any_(R("E")), ["a", "(", "["], 8, 7),
        Gram([], any_(either(par(EMPTY), either(grp("[", EMPTY), grp("{", EMPTY)))), ["(", "[", "{"], 8, 7),
    ] + [
        # whatever follows a group is left to what follows it in the grammar
        Gram([sn("Top", x=grp(D, any_(a)), y=any_(either(P(";"), either(P(","), grp(D, EMPTY)))))], R("Top"), [D, ";", ",", "a"], 5) for D in "([{"
    ] + [Gram([], any_(either(grp(D, EMPTY), P("?"))), [D, ";", ",", ".", "?", "a"], 4) for D in "([{"]

def C10():
    def g(*x, **k): return Gram(*x, unloc=True, **k)
    return [
        g([E("E", [V("A", a, b, c), V("B", a, c), V("C", b)])], R("E"), "abcd", 4),
        g([E("E", [V("C", b), V("B", a, c), V("A", a, b, c)])], R("E"), "abcd", 4),
        # equally far: the last one
        g([E("E", [V("A", a, P("+")), V("B", a, P("-")), V("C", a, P("*")), V("D", b)])], R("E"), ["a", "b", "+", "/"], 4),
        g([E("E", [V("A", P("+")), V("B", P("-")), V("C", P("*"))])], R("E"), ["+", "/", "("], 3),
        # two-way alternation, nested on either side
        g([st("X", a, b, c), st("Y", a, b), st("Z", a)], either(R("X"), either(R("Y"), R("Z"))), "abcd", 4),
        g([st("X", a, b, c), st("Y", a, c), st("Z", b, a)], either(either(R("Z"), R("Y")), R("X")), "abcd", 4),
        # enums within enums, within two-way alternations
        g([E("E", [V("P", R("F")), V("Q", a, R("F")), V("R", c)]), E("F", [V("A", a, b), V("B", b, c), V("C", b, b, a)])], R("E"), "abcd", 5),
        g([E("E", [V("P", either(R("F"), R("G"))), V("R", a, b, P("+"))]), E("F", [V("A", a, b, P("-"))]), st("G", a, c, P("*"))], R("E"), ["a", "b", "c", "+"], 5, 4),
        # errors inside groups, at closing delimiters, at the very end
        g([E("E", [V("A", par(a), P("+")), V("B", par(R("St"))), V("C", par(EMPTY), P("-"), a)])] + ST0, R("E"), ["a", "b", "+", "-", "("], 5),
        g([E("E", [V("A", par(R("I"))), V("B", par(a), b), V("C", grp("[", b))]), st("I", a, b)], R("E"), ["a", "b", "(", "["], 5),
        # the longest mistake is in a repeated or separated part
        g([E("E", [V("A", sep(a, P(",")), P(";")), V("B", any_(a), b), V("C", a, a, a, c)])], R("E"), ["a", "b", ",", ";"], 5),
        # markers and literals of several tokens
        g([E("E", [V("A", EOF), V("B", LIT("LitUint")), V("C", LIT("LitInt"), P("+")), V("D", R("Void"))]), E("Void", [])], R("E"), ["1", "-", "+", "a"], 4),
        g([E("E", [V(f"V{i}", *([a] * (i % 5)), P("+")) for i in range(12)])], R("E"), ["a", "b", "+"], 6),
        g([E("E", [V(f"V{i}", *([a] * ((7 * i) % 5)), P("-"), b) for i in range(9)])], R("E"), ["a", "b", "-"], 6),
    ]
ST0 = [st("St", a, b)]

def C11():
    return [
        Gram([sn("Top", x=R("In"), r_y=any_(R("In")), z=R("E")), st("In", a, P("+")), E("E", [VN("V", left=b, right=c), V("W", c, R("In"))])], R("Top"), ["a", "b", "c", "+"], 6),
        Gram([st("A", R("B"), b), st("B", R("Cc"), b), sn("Cc", f=R("D"), g=b), E("D", [V("X", a), VN("Y", k=c, l=a)])], R("A"), "abc", 6),
        # through every kind of production
        Gram([sn("Top", g=par(R("In"))), sn("In", m=maybe(a, R("Jn"))), st("Jn", sep(R("Kn"), P(","))), sn("Kn", l=b)], R("Top"), ["a", "b", ",", "("], 7, 6),
        Gram([sn("Top", l=left(P("+"), R("U"))), E("U", [VN("N", op=P("-"), e=box(R("U"))), V("P", par(right(P("="), box(R("U"))))), V("I", IDENT)])], R("Top"), ["x", "+", "-", "=", "("], 6, 5),
        Gram([sn("Top", p=grp("{", punct(R("I"), P(";")))), sn("I", name=IDENT, eq=P("="), v=either(LIT("LitUint"), R("Nest"))), st("Nest", grp("[", many(R("I2")))), sn("I2", q=IDENT, w=P(":"))],
             R("Top"), ["x", "=", ";", "1", "{"], 7, 5),
        Gram([sn("Top", r_type=IDENT, x=R("rSelf_"), y=P("+")), st("rSelf_", a)], R("Top"), ["a", "b", "+"], 4),
        Gram([st("Top", *[a] * 11, R("L")), st("L", P("+"), P("-"))], R("Top"), ["a", "+"], 3),
        Gram([E("E", [VN("Cons", h=a, t=box(R("E"))), VN("Wrap", g=par(box(R("E")))), V("Nil", b)])], R("E"), ["a", "b", "("], 6),
        Gram([st("Nn", maybe(a, box(R("Nn"))), b)], R("Nn"), "ab", 7),
        # equally far alternatives keep their own path
        Gram([E("E", [V("A", R("X")), V("B", R("Y"))]), st("X", a, P("+")), sn("Y", m=a, n=P("-"))], R("E"), ["a", "b", "+"], 4),
        Gram([E("Void", []), sn("Top", v=maybe(a, R("Void")), w=R("E")), E("E", [V("A", R("Void"))])], R("Top"), "ab", 3),
        Gram(deep_expr(), R("Expr"), ["x", "+", ",", "(", "["], 5, 4),
        # every kind of group: empty, too short, too long, with what follows
        Gram([sn("Top", x=par(a), y=grp("[", a), z=grp("{", a))], R("Top"), ["a", "(", "[", "{"], 9, 8),
    ] + [Gram([sn("Top", g=grp(D, R("In")), t=maybe(P(";"), grp(D, x))), st("In", x, y)], R("Top"), ["a", "b", ";", D], 7, 6)
         for D in "([{" for x, y in [(a, b), (either(a, P(";")), any_(b)), (LIT("Lit"), NOTEOF)]] + [
        # messages of every kind, from parsers of the user
    ] + [Gram([sn("Top", x=a, y=R("E")), E("E", [V("A", fail(x)), VN("B", b=b, f=R("F"))]), st("F", maybe(a, fail(y)), either(fail(z), par(fail(x))))], R("Top"), ["a", "b", "("], 5)
         for x, y, z in [("no way.", " two  blanks ", "line one\nline two\n"), ("", ".", "\n"), ("`{}` {0} {{x}} %s \\ \" '", "\tTab: 100%", "caused by:\n  itself"),
                         ("error parsing", "error parsing X::y: no", "Error: expected end of input or group, found garbage"), ("unexpected end of input", "unexpected token", "\u00e9t\u0151\u2028."), ("x" * 300, "a, b; c!", "UPPER lower")]] + [
        # names of every kind; a name that several things have
        Gram([E("A", [VN("A", A=b), V("B", a, b), VN("C", C=R("B"))]), st("B", P("+"), R("Cc")), sn("Cc", Cc=a, B=b)], R("A"), ["a", "b", "+"], 5),
        Gram([E("Aa", [VN("A", Aa=a, a=R("A")), V("Aa", R("A")), VN("AaA", A=b, aa=a)]), st("A", P("+"), maybe(b, box(R("A"))))], R("Aa"), ["a", "b", "+"], 5),
        Gram([sn("x", x=R("y"), y=R("z")), sn("y", y=maybe(P("+"), box(R("x"))), x=a), E("z", [VN("z", x=a, z=P("+")), VN("x", y=b, x=R("r#fn"))]), sn("r#fn", **{"r#x": P("+"), "z": b})], R("x"), ["a", "b", "+"], 5),
        Gram([E("E" * 40, [VN("V" * 80, **{"f" * 120: a, "f" * 121: R("Ee")})]), st("Ee", maybe(a, box(R("E" * 40))), P("+"))], R("E" * 40), ["a", "b", "+"], 5),
        Gram([sn("Top", _x=a, __=b, **{"r#type": a, "r#fn": b, "tokens": a})], R("Top"), "ab", 5),
        Gram([E("E", [VN("A", _x=a, **{"r#type": b}), VN("B", error=a, __=a), VN("r#C", cause=a, result=P("+"))])], R("E"), ["a", "b", "+"], 4),
    ]

def C12():
    M = [EMPTY, EOF, NOTEOF]
    gs = []
    for i, m in enumerate(M):
        gs += [Gram([], m, ["a", "("], 3),
               Gram([sn("Top", x=m, y=maybe(a), z=REST)], R("Top"), "ab", 4), Gram([sn("Top", x=any_(a), y=m, z=REST)], R("Top"), "ab", 4),
               Gram([sn("Top", x=REST, y=m)], R("Top"), ["a", "+"], 4), Gram([sn("Top", x=par(m), y=m)], R("Top"), ["a", "("], 5),
               Gram([sn("Top", x=par(R("I")), y=REST), st("I", a, m)], R("Top"), ["a", "("], 6),
               Gram([E("E", [V("A", a, m), V("B", REST)])], R("E"), "ab", 4), Gram([sn("Top", x=maybe(m, a), y=REST)], R("Top"), "ab", 4),
               Gram([sn("Top", x=maybe(a, m), y=REST)], R("Top"), "ab", 4),
               Gram([st("I", a, m)], any_(R("I")), "ab", 5), Gram([st("I", a, m)], sep(R("I"), P(",")), ["a", ","], 5),
               Gram([st("I", m, a, m)], punct(R("I"), P(",")), ["a", ","], 5), Gram([], either(m, a), "ab", 3), Gram([], either(a, m), "ab", 3),
               Gram([sn("Top", x=m, y=m, z=a, w=m)], R("Top"), "ab", 3)]
    gs += [Gram([sn("Top", x=any_(R("L"))), E("L", [VN("Line", w=WORD, e=either(P(";"), EOF))])], R("Top"), ["a", ";"], 5),
           Gram([], many(par(many(WORD))), ["a", "("], 7, 6), Gram([], left(NOTEOF, WORD), "ab", 4), Gram([], right(NOTEOF, WORD), "ab", 4), Gram([], sep(WORD, EMPTY), "ab", 4)]
    return gs

# ---------------------------------------------------------------- what stands around a production
def STRAY(pid):
    """each kind of production followed by tokens of every kind, all of which the grammar could take"""
    anytok = either(WORD, either(LIT("Lit"), either(P(";"), either(P(","), either(P("."), either(P("="), either(P("?"), par(EMPTY))))))))
    al = ["a", ";", ",", ".", "=", "?", "1", "("]
    E2 = E("E", [V("A", a, P("=")), V("B", a), VN("C", x=P("?"))])
    ops = dict(C01=[R("E"), either(R("S"), a)], C02=[R("S"), R("N")], C03=[a, any_(a), sep(a, P(","))], C04=[any_(a), sep(a, P(".")), maybe(a, P("="))],
               C05=[maybe(a), maybe(a, P("=")), maybe(P("."), a)], C06=[any_(a), any_(R("S")), par(punct(a, P(",")))], C07=[sep(a, P(",")), sep(a, P(";")), sep(R("E"), P("."))],
               C08=[left(P("."), a), right(P("="), a)], C09=[par(any_(a)), par(punct(a, P(",")))], C10=[R("E"), either(R("S"), P(";"))], C11=[R("N"), R("E")], C12=[EMPTY, NOTEOF, EOF])[pid]
    ts = [E2, st("S", a, P(",")), sn("N", x=a, y=maybe(P(","), a))]
    whole = pid in ("C03", "C10", "C11")
    def used(op):
        n = str(op)
        return [t for t in ts if f"'{t['name']}'" in n]
    return [Gram(used(op) + ([] if whole and pid == "C03" else [sn("Top", x=op, **(dict(y=b) if whole else dict(rest=any_(anytok))))]),
                 op if whole and pid == "C03" else R("Top"), al + (["b"] if whole and pid != "C03" else []), 4, unloc=pid == "C10") for op in ops]

# ---------------------------------------------------------------- operators of several characters
MULTI = ["==", "!=", "<=", ">=", "&&", "||", "->", "<-", "=>", "::", "..", "..=", "...", "<<", ">>", "<<=", ">>=", "+=", "-=", "*=", "%=", "^=", "&=", "|="]
def optoks(op): return [c + "~" for c in op[:-1]] + [op[-1]]
def OPERATORS(pid):
    """every operator as a prefix, a separator and an operator of a chain, and followed by itself and its parts"""
    if pid not in ("C05", "C06", "C07", "C08"): return []
    out = []
    for k, op in enumerate(MULTI):
        if pid != "C07" and k % 3 != int(pid[1:]) % 3: continue
        al = list(dict.fromkeys(["a"] + optoks(op) + [op[0]]))
        x = dict(C05=maybe(P(op), a), C06=punct(a, P(op)), C07=sep(a, P(op)), C08=[left, right][k % 2](P(op), a))[pid]
        if pid == "C06": out.append(Gram([], x, al, 5))
        else: out.append(Gram([sn("Top", x=x, rest=any_(either(WORD, P(op[0]))))], R("Top"), al, 5))
    return out

# ---------------------------------------------------------------- large declarations, deep nesting
def WIDE(unl=False):
    """grammars of many alternatives, many fields and deep recursion; mostly for the recordings"""
    al = [a, b, c, P("+"), P("-"), P("*")]
    vs = []
    for i, x in enumerate(al):
        for j, y in enumerate(al):
            n = f"V{i * 6 + j}"
            k = (i * 7 + j * 3) % 5
            if k == 0: vs.append((n, "tuple", T(x, y, al[(i + j) % 6])))
            elif k == 1: vs.append((n, "named", [("zz", x), ("aa", maybe(y))]))
            elif k == 2: vs.append((n, "tuple", T(par(x), y)))
            else: vs.append((n, "tuple", T(x, y)))
    big = Gram([E("Big", vs), sn("Top", es=any_(R("Big")), rest=any_(WORD))], R("Top"), ["a", "b", "c", "+", "-", "*", "("], 2, unloc=unl)
    opt = [maybe(a), maybe(P("+")), maybe(b), maybe(P("-")), maybe(c), maybe(P("*"))]
    tup = Gram([st("Tup", *(opt[i % 6] for i in range(15))), sn("Top", x=R("Tup"), y=R("Tup"))], R("Top"), ["a", "b", "c", "+", "-", "*"], 2, unloc=unl)
    names = "z y x w v u t s r q p o n m l k j i h g f e d c b a".split()
    nam = Gram([S("Rec", "named", [(f"{n}{i}" if i % 3 else n, [WORD, any_(P("+")), par(maybe(WORD)), P("-")][i % 4]) for i, n in enumerate(names)]), sn("Top", r=R("Rec"))],
               R("Top"), ["a", "b", "+", "-", "("], 2, unloc=unl)
    # variants with many fields
    both = Gram([E("Both", [V("Tt", P("+"), *(opt[i * 5 % 6] if i != 11 else WORD for i in range(13))),
                            ("Nn", "named", [(f"{n}{i}" if i % 3 else n, [par(maybe(WORD)), WORD, any_(P("+")), P("-")][i % 4]) for i, n in enumerate(names[:14])]),
                            V("Xx", *([WORD, P("*")] * 6), maybe(P("+"), WORD))])], R("Both"), ["a", "b", "+", "-", "*", "("], 2, unloc=unl)
    nest = Gram([E("N", [VN("P", lead=maybe(P("+")), g=par(any_(R("N")))), V("B", grp("[", sep(box(R("N")), P(",")))), VN("C", c=grp("{", left(P("*"), box(R("N")))), d=maybe(P("-"), box(R("M")))),
                        V("U", P("-"), box(R("N"))), V("L", WORD)]), st("M", any_(P("+")), box(R("N")))], R("N"), ["a", "(", "[", "{", "+", "-", ",", "*"], 2, unloc=unl)
    nest.deep = True
    out = [big, tup, nam, both, nest]
    for g in out: g.mmax = 2
    return out

def deep_input(rng, n, core=("a",), parens=True):
    """an input of the nesting grammar of WIDE, n levels deep; without parentheses, nothing on the way down gives up
    quietly, so the error of a wrong core gathers the context of every level"""
    w = list(core); k = 0
    while k < n:
        r = rng.random() if parens else rng.uniform(.35, 1); k += 1
        if r < .35: w = (["+"] if rng.random() < .3 else []) + ["("] + ["a"] * rng.choice([0, 0, 1]) + w + ["a"] * rng.choice([0, 0, 1]) + [")"]
        elif r < .6: w = ["["] + (["a", ","] if rng.random() < .3 else []) + w + ([",", "a"] if rng.random() < .3 else []) + ["]"]
        elif r < .8: w = ["{"] + (["a", "*"] if rng.random() < .3 else []) + w + (["*", "a"] if rng.random() < .3 else []) + ["}"]
        elif r < .9: w = ["{", "a", "}", "-"] + ["+"] * rng.choice([0, 1]) + w
        else: w = ["-"] + w
    return w

# ---------------------------------------------------------------- random grammars
def random_gram(rng, ops, unloc=False, tries=200, size=4, alpha=None):
    """a random well-formed grammar using only the given operators"""
    for _ in range(tries):
        nt = rng.randint(1, size)
        names = [f"T{i}" for i in range(nt)] if rng.random() < .4 else rng.sample(TYNAMES, nt)
        al = alpha or rng.choice([["a", "b", "+"], ["a", "b", "c"], ["x", "fn", "1", "-"], ["a", ",", ";"], ["a", "-", "-~", ">"]] + [list(dict.fromkeys(["a"] + optoks(o) + [o[0]])) for o in rng.sample(MULTI, 1)])
        kw = [t for t in al if tokinfo(t)["k"] in ("ident",)]
        def term():
            c = []
            for t in al:
                k = tokinfo(t)
                if k["k"] == "ident": c += [K(t), IDENT, WORD]
                elif k["k"] == "rkw": c += [WORD, ("rkw", t)]
                elif k["k"] == "punct" and not k["j"]: c += [P(k["c"])] * 2
                elif k["k"] == "lit": c += [LIT("LitUint"), LIT("Lit"), LIT("LitInt")]
            for o in MULTI:
                if all(t in al for t in optoks(o)): c += [P(o)] * 2
            if "ci" in ops and kw: c.append(("ci", kw[0]))
            return rng.choice(c)
        def ex(d):
            if d <= 0 or rng.random() < .3: return term()
            o = rng.choice(ops)
            if o == "ref": return box(R(rng.choice(names)))
            if o == "maybe": return maybe(ex(d-1), ex(d-1)) if rng.random() < .7 else maybe(ex(d-1))
            if o == "any": return any_(ex(d-1))
            if o == "punct": return punct(ex(d-1), ex(d-2))
            if o == "many": return many(ex(d-1))
            if o == "sep": return sep(ex(d-1), ex(d-2))
            if o == "left": return left(ex(d-2), ex(d-1))
            if o == "right": return right(ex(d-2), ex(d-1))
            if o == "grp": return grp(rng.choice("([{"), ex(d-1))
            if o == "either": return either(ex(d-1), ex(d-1))
            if o == "attempt": return attempt(either(ex(d-1), ex(d-1)))
            if o in ("empty", "eof", "noteof"): return (o,)
            return term()
        def fields(k):
            style = rng.choice(["named", "tuple"]) if k else rng.choice(["named", "tuple", "unit"])
            fn = rng.sample(["x", "y", "zed", "alpha", "m_1", "item", "self_", "k9", "q", "_m", "__", "_0", "r#type", "r#fn", "tokens", "input",
                             "error", "result", "cause", "ast_node", "Upper"], k)
            return style, [(fn[i] if style == "named" else str(i), ex(3)) for i in range(k)]
        types = []
        for i, n in enumerate(names):
            if "enum" in ops and rng.random() < .55:
                vs = []; nv = rng.choice([1, 2, 2, 3, 3, 4])
                # names that other things have, too
                vn = [f"V{v}" for v in range(nv)] if rng.random() < .4 else rng.sample(sorted({n, *names, "x", "_m", "V", "V0", "V00", "v0", "Upper", "None", "Ok", "input", "r#type", "__", "error"}), nv)
                for v in range(nv):
                    s, f = fields(rng.choice([0, 1, 1, 2, 2, 3]))
                    vs.append((vn[v], s, f))
                types.append(E(n, vs))
            else:
                s, f = fields(rng.choice([0, 1, 2, 2, 3, 4]))
                types.append(S(n, s, f))
        g = Gram(types, R(names[0]), al, 4, unloc=unloc)
        uses_grp = any(n["op"] == "group" for n in g.nodes)
        if uses_grp:
            for dch in sorted({n["s"] for n in g.nodes if n["op"] == "group"}): g.alpha.append(dch)
        if not g.wellformed() or len(g.nodes) < 6 or len(g.nodes) > 60: continue
        if not finite(g): continue
        # at least some input must be accepted
        s = Sampler_min(g)
        if s[g.startnode] >= 10**5: continue
        # only keep types that are used (Rust would not mind, but recursion without base would)
        if any(s[k] >= 10**5 for k in range(1, len(g.nodes)+1)): continue
        g.random = True
        return g
    return None

TYNAMES = ["T", "E", "V", "V0", "Node", "Node2", "Nod", "node_ty", "Upper", "_Mm", "__Ty", "r#Tt", "r#type", "r#in", "Option1", "Fail", "Parse_", "A_b_C", "N" * 60]
def Sampler_min(g):
    INF = 10**6; m = [INF] * (len(g.nodes) + 1)
    ch = True
    while ch:
        ch = False
        for k, N in enumerate(g.nodes, 1):
            c = [m[x] for x in N["a"]]; o = N["op"]
            v = 1 + (min(c, default=INF) if o in ("alt", "either") else 0 if o in ("maybe", "any", "punct") else c[0] if o in ("sep", "left", "right") else max(c, default=0))
            if v < m[k]: m[k] = v; ch = True
    return m

def finite(g):
    """the Rust types must be finitely large: recursion only behind Box, groups do not help.
    Expressions put a Box around every reference, so this always holds here."""
    return True

OPS = dict(
    C01=["ref", "either", "attempt", "either", "enum", "grp", "any", "maybe"], C02=["ref", "grp", "any", "maybe", "sep", "enum"],
    C03=["ref", "grp", "grp", "any", "maybe", "either", "sep", "left", "enum", "punct"],
    C04=["ref", "grp", "any", "maybe", "either", "sep", "left", "right", "enum", "punct", "many"],
    C05=["ref", "maybe", "maybe", "maybe", "grp", "any", "enum", "either"], C06=["ref", "any", "any", "punct", "many", "grp", "enum"],
    C07=["ref", "sep", "sep", "grp", "any", "either"], C08=["ref", "left", "right", "either", "grp"], C09=["ref", "grp", "grp", "any", "either"],
    C10=["ref", "either", "either", "attempt", "enum", "enum", "grp", "maybe", "sep"], C11=["ref", "grp", "any", "maybe", "either", "sep", "left", "right", "enum", "enum", "punct", "many"],
    C12=["ref", "empty", "eof", "noteof", "grp", "any", "maybe", "either", "attempt", "sep", "enum"],
    ALL=["ref", "grp", "any", "maybe", "either", "sep", "left", "right", "enum", "punct", "many", "ci", "empty", "eof", "noteof"])
