"""how C13-C26 are decided, for the manifest"""
BOTH = "; model-checked with TLC; every behaviour it enumerates is replayed into the real code and compared, and recordings of longer real runs are validated by TLC against it"
FMT = "TLA+ specification of the token formatter (Fmt, Indent): layout, text, re-tokenisation and a writer with a fault budget" + BOTH
CONT = "TLA+ specification of the containers (Cont): every history of public operations to a depth" + BOTH
LIT = "TLA+ specification of literals (Lit): spellings, kinds, exact values, overflow" + BOTH
T2 = dict(
    C13="TLA+ specification of lines, columns and positions (Loc)" + BOTH,
    C14=FMT, C15=FMT, C16=FMT, C17=CONT, C18=CONT,
    C19="TLA+ specification of the two-way alternative (Two): histories of its operations" + BOTH,
    C20="TLA+ specification of words, identifiers and keyword lists (Words)" + BOTH,
    C21=LIT, C22=LIT,
    C23="TLA+ specification of equality, order and hashing by content (Eqv): all pairs of contents, and histories of hashed and ordered collections" + BOTH,
    C24="TLA+ specification of declarations (Derive): TLC enumerates shapes, says for which arguments each can be read and printed and what reading any token sequence yields; the declarations are compiled with the real derives and run",
    C25="TLA+ specification of the entry points (Entry): readings and quotations" + BOTH,
    C26="TLA+ specification of the parser (Peg) with its attempt counter and stack, termination as a liveness property (TLC); attempts and stack addresses recorded from the real parser on flat inputs are validated by TLC",
)
_B = "Exhaustive up to the bound stated in the evidence file; beyond it random recorded runs. Trusts TLC, the harness, and proc-macro2's lexer."
N2 = {p: _B for p in T2}
N2["C22"] = _B + " Floats: the specification gives the exact decimal; rounding is taken from Python's correctly rounded conversion."
N2["C21"] = N2["C22"]
N2["C24"] = "A seeded sample of the enumerated declarations is compiled on every run (rustc is the cost); unions must be rejected. Trusts rustc and TLC."
N2["C26"] = "Termination and linear work are checked on the model for all inputs to a bound; on the real code attempts and stack are measured up to 10^5 items and judged against a generous linear bound."
T2["C27"] = "TLA+ specification of debug text (Dbg): a writer that works through a node under every set of formatting options, checked against a recursive definition of the text; TLC enumerates nodes and random ones, every text is compared with that of the real node"
N2["C27"] = _B + " What foreign leaves (identifiers, literals' own structs) show is taken from them; the layout of std's debug builders is part of the specification."
T2["C28"] = "TLA+ specifications of the parser (Peg) and of streams with invisible groups (Invis): what a cursor reads from them; model-checked with TLC; every input it enumerates is parsed with groups placed in the ways Invis enumerates, and a sample inside the compiler, by a procedural macro with the same grammars; larger recordings with groups are validated by TLC as ones without"
N2["C28"] = _B + " Inside the compiler a sample of the enumerated inputs and recordings is read on every run (rustc is the cost), some of them captured as expressions by macro_rules. Trusts rustc."
T2["C29"] = "TLA+ specification of a located value (Carry): its forms, conversions, groups around it and what each step does to value and locations; model-checked with TLC, which enumerates every step from every reachable state; each is replayed into the real types, and longer recorded histories are validated by TLC"
N2["C29"] = _B + " Locations are those of proc-macro2's fallback implementation."
