#![allow(dead_code, unused_imports, clippy::all)]
use harness::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasher, Hash, Hasher};
use parsel::ast::*;
use parsel::ast::Lit;
use parsel::syn::Token;
use parsel::{Parse, ToTokens, Spanned, Span, NotNan, FromStr, Display};

#[derive(Parse, ToTokens, FromStr, Display, Clone, PartialEq, Eq, Hash)]
struct Two { a: Word, b: Maybe<Token![=], Lit> }
type Op = Either<Token![+], Token![-]>;
parsel::define_keywords!{ mod kws { fn => Fn; let => Let; yes => Yes; } }
#[derive(Parse, ToTokens, FromStr, Display, Clone, PartialEq, Eq, Hash)]
enum Kw { A(kws::Fn), B(kws::Let), C(kws::Yes), D(CustomIdent<kws::Keywords>) }

fn hash<T: Hash + ?Sized>(x: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
trait One: Parse + PartialEq + Eq + Hash + Clone {}
impl<T: Parse + PartialEq + Eq + Hash + Clone> One for T {}
fn val<T: Parse>(text: &str) -> T { match parsel::parse_str(text) { Ok(x) => x, Err(e) => panic!("{text:?} is not read: {e}") } }
/// every way of asking whether two nodes are equal, and of the hash: those that say something else
fn pair<T: One>(x: &T, y: &T, eq: bool, o: &mut Vec<String>) {
    let mut ask = |n: &str, b: bool| if b != eq { o.push(n.to_string()) };
    ask("==", x == y); ask("== the other way around", y == x); ask("!=", !(x != y)); ask("== of clones", x.clone() == y.clone()); ask("== of references", &x == &y);
    ask("a set of both", HashSet::<T>::from([x.clone(), y.clone()]).len() == 1);
    ask("a map", HashMap::<T, u8>::from([(x.clone(), 0)]).contains_key(y));
    ask("a list", vec![x.clone()].contains(y)); ask("an option", Some(x) == Some(y));
    if eq && hash(x) != hash(y) { o.push("hash".into()) }
    if eq && hash(&[x.clone(), y.clone()][..]) != hash(&[y.clone(), x.clone()][..]) { o.push("hash of a slice".into()) }
    if x != x || hash(x) != hash(&x.clone()) { o.push("== with itself".into()) }
}
fn ord<T: One + Ord>(x: &T, y: &T, c: i32, o: &mut Vec<String>) {
    let want = c.cmp(&0);
    let mut ask = |n: &str, b: bool| if !b { o.push(n.to_string()) };
    ask("cmp", x.cmp(y) == want); ask("cmp the other way around", y.cmp(x) == want.reverse()); ask("partial_cmp", x.partial_cmp(y) == Some(want));
    ask("<", (x < y) == (c < 0)); ask("<=", (x <= y) == (c <= 0)); ask(">", (x > y) == (c > 0)); ask(">=", (x >= y) == (c >= 0));
    ask("max", x.clone().max(y.clone()) == if c > 0 { x.clone() } else { y.clone() }); ask("min", x.clone().min(y.clone()) == if c > 0 { y.clone() } else { x.clone() });
    let mut v = vec![x.clone(), y.clone()]; v.sort(); ask("sort", v == if c > 0 { vec![y.clone(), x.clone()] } else { vec![x.clone(), y.clone()] });
    ask("an ordered set", BTreeSet::<T>::from([x.clone(), y.clone()]).len() == if c == 0 { 1 } else { 2 });
    ask("slices", [x].cmp(&[y]) == want);
}
/// comparison with the plain value, hashing and lookup by it
fn plain<T, R: ?Sized>(x: &T, r: &R, c: i32, o: &mut Vec<String>) where T: One + Ord + PartialEq<R> + PartialOrd<R> + Borrow<R>, R: Hash + Eq + Ord {
    let want = c.cmp(&0);
    let mut ask = |n: &str, b: bool| if !b { o.push(format!("{} a plain value", n)) };
    ask("== with", (*x == *r) == (c == 0)); ask("!= with", (*x != *r) == (c != 0)); ask("partial_cmp with", x.partial_cmp(r) == Some(want));
    ask("< with", (*x < *r) == (c < 0)); ask("> with", (*x > *r) == (c > 0)); ask("<= with", (*x <= *r) == (c <= 0)); ask(">= with", (*x >= *r) == (c >= 0));
    ask("lookup by", HashSet::<T>::from([x.clone()]).contains(r) == (c == 0)); ask("ordered lookup by", BTreeSet::<T>::from([x.clone()]).contains(r) == (c == 0));
    let b: &R = x.borrow(); ask("hash like", hash(b) == hash(x)); ask("borrow as", b.cmp(r) == want);
}
/// the value a literal has when none is given
fn dflt<T: Default + PartialEq<R>, R: Default>(_: &T, o: &mut Vec<String>) { if T::default() != R::default() { o.push("default".into()) } }
parsel::define_keywords!{ mod kwa { A => K1; B => K2; a => K3; ab => K4; b => K5; fn => K6; r#a => K7; r#fn => K8; é => K9; self => K10; a1 => K11; a_ => K12; r#ab => K14; r => K15; _ => K13; } }
macro_rules! with_kw { ($w:expr, $k:ident, $b:expr) => { match &$w.to_string()[..] {
    "A" => { type $k = kwa::K1; $b } "B" => { type $k = kwa::K2; $b } "a" => { type $k = kwa::K3; $b } "ab" => { type $k = kwa::K4; $b } "b" => { type $k = kwa::K5; $b }
    "fn" => { type $k = kwa::K6; $b } "r#a" => { type $k = kwa::K7; $b } "r#fn" => { type $k = kwa::K8; $b } "é" => { type $k = kwa::K9; $b } "self" => { type $k = kwa::K10; $b }
    "a1" => { type $k = kwa::K11; $b } "a_" => { type $k = kwa::K12; $b } "r#ab" => { type $k = kwa::K14; $b } "r" => { type $k = kwa::K15; $b } "_" => { type $k = kwa::K13; $b } w => panic!("no keyword {}", w) } } }
/// keyword types: a keyword compares like its spelling, with strings and with other keywords
fn keywords(x: &Word, y: &Word, c: i32, o: &mut Vec<String>) {
    let want = c.cmp(&0); let s = y.to_string();
    let mut ask = |n: &str, b: bool| if !b { o.push(format!("{} of a keyword", n)) };
    with_kw!(x, K, { let k: K = val(&x.to_string());
        ask("== with a string", (k == s) == (c == 0) && (k == &s[..]) == (c == 0) && (k != s) == (c != 0));
        ask("partial_cmp with a string", k.partial_cmp(&s) == Some(want) && k.partial_cmp(&s.clone().into_boxed_str()) == Some(want));
        ask("< with a string", (k < s) == (c < 0) && (k > s) == (c > 0) && (k <= s) == (c <= 0) && (k >= s) == (c >= 0));
        let l: K = K::default(); ask("== with itself", k == l && k.cmp(&l) == Ordering::Equal && hash(&k) == hash(&l) && k.partial_cmp(&l) == Some(Ordering::Equal));
        with_kw!(y, M, { let m: M = val(&s); ask("== with a keyword", (k == m) == (c == 0)); ask("partial_cmp with a keyword", k.partial_cmp(&m) == Some(want)); });
    });
}
struct Hist { res: Vec<bool>, n: usize, odd: Vec<String> }
fn hist<T: One>(ops: &[(char, T)], o: &mut Vec<String>) -> (Vec<bool>, usize) {
    let (mut s, mut m) = (HashSet::<T>::new(), HashMap::<T, usize>::new());
    let mut l: Vec<T> = vec![];
    let mut res = vec![];
    for (k, (op, x)) in ops.iter().enumerate() {
        let (a, b, c) = match op {
            'i' => (!s.insert(x.clone()), m.insert(x.clone(), k).is_some(), { let h = l.contains(x); if !h { l.push(x.clone()) } h }),
            'r' => (s.remove(x), m.remove(x).is_some(), { let n = l.len(); l.retain(|y| y != x); l.len() < n }),
            _ => (s.contains(x), m.get(x).is_some(), l.iter().any(|y| y == x)),
        };
        if a != b || a != c { o.push("different collections disagree".into()) }
        res.push(a);
    }
    if s.len() != m.len() || s.len() != l.len() || !l.iter().all(|x| s.contains(x)) { o.push("different collections have different sizes".into()) }
    (res, s.len())
}
/// the same in an ordered collection; the indices of the operations that brought in what is left, in order
fn ohist<T: One + Ord>(ops: &[(char, T)], res: &[bool], o: &mut Vec<String>) -> Vec<usize> {
    let mut m = BTreeMap::<T, usize>::new();
    for (k, (op, x)) in ops.iter().enumerate() {
        let a = match op { 'i' => m.insert(x.clone(), k).is_some(), 'r' => m.remove(x).is_some(), _ => m.contains_key(x) };
        if a != res[k] { o.push("ordered and hashed collections disagree".into()) }
    }
    let mut v: Vec<T> = m.keys().rev().cloned().collect(); v.sort();
    if !v.iter().eq(m.keys()) { o.push("sorting and ordered collections disagree".into()) }
    m.values().copied().collect()
}
fn parts(s: &str) -> Vec<String> { s.split(';').filter(|x| !x.is_empty()).map(unhex).collect() }
fn answer(o: Vec<String>, more: String) -> String {
    format!("{{\"r\":\"ok\",\"odd\":[{}]{}}}", o.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","), more)
}
macro_rules! run { ($f:expr, $t:ty, $ord:tt, $plain:expr) => {{
    let f: &[&str] = $f; let mut o: Vec<String> = vec![];
    if f[0] == "P" {
        let (x, y): ($t, $t) = (val(&unhex(f[2])), val(&unhex(f[3])));
        pair(&x, &y, f[4] == "1", &mut o);
        let c: i32 = f[5].parse().unwrap();
        run!(@ord $ord, x, y, c, o);
        let p: fn(&$t, &$t, bool, i32, &mut Vec<String>) = $plain; p(&x, &y, f[4] == "1", c, &mut o);
        answer(o, String::new())
    } else {
        let ops: Vec<(char, $t)> = f[2].split(';').filter(|x| !x.is_empty()).map(|x| (x.chars().next().unwrap(), val(&unhex(&x[1..])))).collect();
        let (res, n) = hist(&ops, &mut o);
        let s: Vec<usize> = run!(@hist $ord, ops, res, o);
        answer(o, format!(",\"res\":[{}],\"n\":{},\"sorted\":[{}]", res.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","), n, s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
    }
}};
    (@ord yes, $x:ident, $y:ident, $c:ident, $o:ident) => { ord(&$x, &$y, $c, &mut $o) };
    (@ord no, $x:ident, $y:ident, $c:ident, $o:ident) => { let _ = $c; };
    (@hist yes, $ops:ident, $res:ident, $o:ident) => { ohist(&$ops, &$res, &mut $o) };
    (@hist no, $ops:ident, $res:ident, $o:ident) => { vec![] };
}
fn word<K: Clone + PartialEq + Eq>(x: &CustomIdent<K>, y: &CustomIdent<K>, eq: bool, o: &mut Vec<String>) {
    let s = y.to_string();
    let mut ask = |n: &str, b: bool| if b != eq { o.push(format!("== with a {}", n)) };
    ask("String", *x == s); ask("&str", *x == &s[..]); ask("Box<str>", *x == s.clone().into_boxed_str());
}
