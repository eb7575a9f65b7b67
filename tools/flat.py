"""C06, C07, C08: flat inputs of any length, decided with the Flat specification (counters instead of trees)."""
import random
from core import *
from gram import *
from peg import toks_of, Run

KINDS = dict(C06=["any", "many", "punct"], C07=["sep"], C08=["left", "right"])
A, C, X = IDENT, P(","), P(";")
def grammars():
    t = dict(any=any_(A), many=many(A), punct=punct(A, C), sep=sep(A, C), left=left(C, A), right=right(C, A))
    return {k: Gram([S("Flat", "tuple", [("0", x), ("1", maybe(X))])], ("ref", "Flat"), ["a", ",", ";"]) for k, x in t.items()}

MAIN = r'''
#![allow(dead_code)]
use harness::*;
use std::fmt::Write as _;
use parsel::ast::*;
use parsel::{Parse, ToTokens, Spanned, TokenTree, TokenStream};
use parsel::syn::Token;

/// every token is on a line of its own: its number is its line
fn line<T: Spanned>(x: &T) -> usize { x.span().start().line }
/// differences between neighbours, with how often they repeat
#[derive(Default)]
struct Steps { last: i64, v: Vec<(i64, u64)> }
impl Steps {
    fn put(&mut self, n: usize) {
        let d = n as i64 - self.last; self.last = n as i64;
        match self.v.last_mut() { Some(x) if x.0 == d => x.1 += 1, _ => self.v.push((d, 1)) }
    }
    fn js(&self) -> String { let mut v = String::new(); for (i, x) in self.v.iter().take(40).enumerate() { let _ = write!(v, "{}[{},{}]", if i > 0 { "," } else { "" }, x.0, x.1); } format!("[{}]", v) }
}
trait Watch: Parse + ToTokens {
    fn watch(&self, items: &mut Steps, seps: &mut Steps);
    fn deep(&self) -> bool { false }
}
impl<T: Parse + ToTokens> Watch for Any<T> {
    fn watch(&self, i: &mut Steps, _: &mut Steps) { for x in self.iter() { i.put(line(x)) } }
}
macro_rules! list { ($($l:ident),*) => {$(
    impl<T: Parse + ToTokens, P: Parse + ToTokens> Watch for $l<T, P> {
        fn watch(&self, i: &mut Steps, s: &mut Steps) {
            for p in self.pairs() { let (x, p) = p.into_tuple(); i.put(line(x)); if let Some(p) = p { if !p.to_token_stream().is_empty() { s.put(line(p)) } } }
        }
    }
)*}}
list!(Punctuated, Separated);
impl<O: Parse + ToTokens, R: Parse + ToTokens> Watch for LeftAssoc<O, R> {
    fn watch(&self, i: &mut Steps, s: &mut Steps) {
        let (mut rest, mut at) = (vec![], self);
        while let LeftAssoc::Binary { lhs, op, rhs } = at { rest.push((line(op), line(rhs))); at = lhs; }
        if let LeftAssoc::Rhs(x) = at { i.put(line(x)) }
        for (o, x) in rest.into_iter().rev() { s.put(o); i.put(x) }
    }
    fn deep(&self) -> bool { true }
}
impl<O: Parse + ToTokens, L: Parse + ToTokens> Watch for RightAssoc<O, L> {
    fn watch(&self, i: &mut Steps, s: &mut Steps) {
        let mut at = self;
        while let RightAssoc::Binary { lhs, op, rhs } = at { i.put(line(lhs)); s.put(line(op)); at = rhs; }
        if let RightAssoc::Lhs(x) = at { i.put(line(x)) }
    }
    fn deep(&self) -> bool { true }
}
#[derive(Parse, ToTokens)]
struct Flat<T>(T, Maybe<Token![;]>);
fn text(runs: &str, item: &str) -> (String, usize) {
    let (mut t, mut n) = (String::new(), 0);
    for r in runs.split(' ').filter(|r| !r.is_empty()) {
        let (p, k) = r.split_once(':').unwrap();
        for _ in 0..k.parse::<usize>().unwrap() { for c in p.chars() { n += 1; t.push(' '); t.push_str(match c { 'i' => item, 's' => ",", _ => ";" }); t.push('\n'); } }
    }
    (t, n)
}
fn go<T: Watch>(runs: &str, item: &str) -> String {
    let (t, n) = text(runs, item);
    match parsel::parse_str::<Flat<T>>(&t) {
        Err(e) => { let p = e.span().start(); format!("{{\"r\":\"ok\",\"ok\":false,\"at\":{}}}", if (p.line, p.column) == (1, 0) { 0 } else { p.line }) }
        Ok(v) => {
            let (mut i, mut s, mut p) = (Steps::default(), Steps::default(), Steps::default());
            v.0.watch(&mut i, &mut s);
            if n < 4000 || !v.0.deep() { for t in v.to_token_stream() { p.put(line(&t)) } } else { p.v.push((1, n as u64)) }
            // taking a deep chain apart is not part of this
            std::mem::forget(v);
            format!("{{\"r\":\"ok\",\"ok\":true,\"items\":{},\"seps\":{},\"printed\":{}}}", i.js(), s.js(), p.js())
        }
    }
}
fn items<T: Parse + ToTokens>(f: &[&str], item: &str) -> String {
    match f[0] {
        "any" => go::<Any<T>>(f[2], item), "many" => go::<Many<T>>(f[2], item), "punct" => go::<Punctuated<T, Token![,]>>(f[2], item),
        "sep" => go::<Separated<T, Token![,]>>(f[2], item), "left" => go::<LeftAssoc<Token![,], T>>(f[2], item), _ => go::<RightAssoc<Token![,], T>>(f[2], item),
    }
}
fn dispatch(f: &[&str]) -> String {
    let own: Vec<String> = f.iter().map(|s| s.to_string()).collect();
    // a chain that is rejected at the end is taken apart: recursively
    std::thread::Builder::new().stack_size(2 << 30).spawn(move || guarded(|| {
        let f: Vec<&str> = own.iter().map(|s| s.as_str()).collect();
        match f[1] { "w" => items::<Word>(&f, "w"), "n" => items::<LitInt>(&f, "-3"), "g" => items::<Paren<Maybe<Token![+], Word>>>(&f, "(+ a)"), _ => items::<Either<LitStr, Token![+]>>(&f, "+") }
    })).unwrap().join().unwrap()
}
fn main() { serve(dispatch) }
'''

def cases(pid, rng):
    lens = [255, 256, 257, 1000, 4095, 4096, 4097, 8193, 10001, 32769, 65535, 65536, 65537] + ([100003, 131073, 262145] if thorough() else [])
    out = []
    def r(p, n): return dict(p=list(p), n=n)
    for kd in KINDS[pid]:
        for n in lens:
            if kd in ("any", "many"):
                shapes = [[r("i", n)], [r("i", n), r("x", 1)], [r("i", n), r("s", 1), r("i", 2)], [r("i", n), r("x", 2)], [r("i", n), r("s", n)], [r("i", 3), r("x", 1), r("i", n)]]
            else:
                shapes = [[r("is", n), r("i", 1)], [r("is", n)], [r("is", n), r("i", 1), r("x", 1)], [r("is", n), r("i", 2)], [r("is", n), r("s", 1)], [r("is", n), r("x", 1)],
                          [r("i", 1), r("si", n)], [r("is", n), r("i", 1), r("x", 2)], [r("i", 1), r("si", n), r("s", 1)], [r("is", n), r("is", 5), r("i", 1)], [r("si", n)], [r("is", 3), r("i", n)]]
            # the plain one always, some of the others
            for s in [shapes[0]] + rng.sample(shapes[1:], len(shapes) - 1 if thorough() and n < 70000 else 2): out.append(dict(kind=kd, runs=s))
    return out

def run(rep, pid, rng):
    gs = grammars(); cs = cases(pid, rng)
    toks = toks_of(gs.values())
    spec = dict(toks=toks, grams={k: dict(nodes=g.nodes, start=g.startnode) for k, g in gs.items()}, cases=cs, runs=4 if thorough() else 3, times=3)
    outs, st = tlc("MCFlat", dict(FLAT_JSON=jsonfile(spec, f"{pid}-flat.json"))); rep.states(st)
    if len(outs) != len(cs): raise ToolError(f"{len(outs)} outcomes for {len(cs)} cases")
    exe = build("chkflat", {"main.rs": MAIN})
    outs.sort(key=lambda o: o["c"])
    lines, meta = [], []
    for o, c in zip(outs, cs):
        it = rng.choice("wng+")
        lines.append("\t".join([c["kind"], it, " ".join("".join(x["p"]) + f":{x['n']}" for x in c["runs"])])); meta.append((o, c, it))
    ans = Run(exe, 60).all(lines)
    for (o, c, it), a, l in zip(meta, ans, lines):
        why = None
        if a["r"] != "ok": why = f"no answer: {a}"
        elif a["ok"] != o["ok"]: why = "accepted, but must be rejected" if a["ok"] else "rejected, but must be accepted"
        elif a["ok"]:
            for f, what in (("items", "items"), ("seps", "separators")):
                if a[f] != o[f]: why = f"the {what} are at {a[f]} instead of {o[f]} [difference, times]"
            if not why and c["kind"] != "left" and c["kind"] != "right" and it == "w" and a["printed"] != ([[1, o["n"]]] if o["n"] else []): why = f"the printed tokens are those at {a['printed']}"
        if why: rep.violation(why, input=l, expected=o, got=a)
    if len(ans) < len(lines) and not rep.viol: raise ToolError("incomplete run")
    rep.traces(len(ans)); rep.cov["flat_inputs"] = len(ans); rep.cov["flat_accepted"] = sum(o["ok"] for o in outs); rep.cov["longest_flat_input"] = max(o["n"] for o in outs)
    k = rng.randrange(len(lines)); rep.sample(dict(direction="spec->code", flat=lines[k], expected=outs[k]))
