#![allow(dead_code, unused_imports, unused_must_use)]
use harness::*;
use std::borrow::{Borrow, BorrowMut};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use parsel::ast::*;
use parsel::syn::punctuated::{Pair, Punctuated as Syn};
use parsel::syn::{self, parse::{Parse, ParseStream}};
use parsel::{Span, Spanned, ToTokens, TokenStream};

#[derive(Clone, PartialEq, Eq, Hash, Debug)] pub struct V(u32);
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)] pub struct Q(u32);
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)] pub struct DV(u32);
fn word(c: char, n: u32) -> syn::Ident { syn::Ident::new(&format!("{}{}", c, n), Span::call_site()) }
fn num(input: ParseStream<'_>, c: char) -> syn::Result<u32> {
    let i: syn::Ident = input.parse()?;
    let s = i.to_string();
    match s.strip_prefix(c).and_then(|t| t.parse().ok()) { Some(n) => Ok(n), None => Err(syn::Error::new(i.span(), "other word")) }
}
impl ToTokens for V { fn to_tokens(&self, ts: &mut TokenStream) { word('v', self.0).to_tokens(ts) } }
impl ToTokens for Q { fn to_tokens(&self, ts: &mut TokenStream) { word('p', self.0).to_tokens(ts) } }
impl Parse for V { fn parse(input: ParseStream<'_>) -> syn::Result<Self> { num(input, 'v').map(V) } }
impl Parse for Q { fn parse(input: ParseStream<'_>) -> syn::Result<Self> { num(input, 'p').map(Q) } }

const BUMP: u32 = 1000;
type Sep = Separated<V, Q>;
type Pun = Punctuated<V, Q>;
type May = Maybe<Q, V>;

// ---------------------------------------------------------------- views
/// what the accessors show: for every view the value, and every accessor that shows something else
struct See(Vec<String>, Vec<(String, String)>);
impl See {
    fn put(&mut self, view: &str, acc: &str, v: String) {
        if self.1.iter().any(|(a, b)| a == view && *b == v) { return }
        self.0.push(format!("[{},{},{}]", jstr(view), jstr(acc), v));
        self.1.push((view.into(), v));
    }
}
fn nums<'a>(it: impl Iterator<Item = &'a V>) -> String { list(it.map(|v| v.0.to_string())) }
fn list(it: impl Iterator<Item = String>) -> String { format!("[{}]", it.collect::<Vec<_>>().join(",")) }
fn pr(v: &V, p: Option<&Q>) -> String { format!("[{},{}]", v.0, p.map_or(-1, |q| q.0 as i64)) }
fn toks(t: &impl ToTokens) -> String { list(t.to_token_stream().into_iter().map(|t| jstr(&t.to_string()))) }
fn hash(t: &impl Hash) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn opt(v: Option<&V>) -> String { match v { Some(v) => format!("[{}]", v.0), None => "[]".into() } }

macro_rules! list_views { ($x:expr, $s:expr) => {{
    let (x, s) = ($x, $s);
    s.put("vals", "iter", nums(x.iter()));
    s.put("vals", "&into_iter", nums((&*x).into_iter()));
    s.put("vals", "into_iter", nums(x.clone().into_iter().collect::<Vec<_>>().iter()));
    s.put("vals", "iter_mut", list(x.clone().iter_mut().map(|v| v.0.to_string())));
    s.put("vals", "&mut into_iter", list((&mut x.clone()).into_iter().map(|v| v.0.to_string())));
    s.put("vals", "index", list((0..x.iter().count()).map(|i| x[i].0.to_string())));
    s.put("rvals", "iter.rev", nums(x.iter().rev()));
    s.put("rvals", "into_iter.rev", nums(x.clone().into_iter().rev().collect::<Vec<_>>().iter()));
    s.put("same", "clone", (x.clone() == *x && hash(&x.clone()) == hash(x)).to_string());
    s.put("toks", "to_tokens", toks(x));
    s.put("toks", "display", list(x.to_string().split_whitespace().map(|t| jstr(t))));
    s.put("toks", "display#", list(format!("{:#}", x).split_whitespace().map(|t| jstr(t))));
}}}
macro_rules! pair_views { ($x:expr, $s:expr) => {{
    let (x, s) = ($x, $s);
    s.put("pairs", "pairs", list(x.pairs().map(|p| { let (v, p) = p.into_tuple(); pr(v, p) })));
    s.put("pairs", "pairs_mut", list(x.clone().pairs_mut().map(|p| { let (v, p) = p.into_tuple(); pr(v, p.map(|q| &*q)) })));
    s.put("pairs", "into_pairs", list(x.clone().into_pairs().map(|p| { let (v, p) = p.into_tuple(); pr(&v, p.as_ref()) })));
    s.put("pairs", "into_inner", list(x.clone().into_inner().pairs().map(|p| { let (v, p) = p.into_tuple(); pr(v, p) })));
    let y: Syn<V, Q> = x.clone().into();
    s.put("pairs", "into", list(y.pairs().map(|p| { let (v, p) = p.into_tuple(); pr(v, p) })));
    s.put("rpairs", "pairs.rev", list(x.pairs().rev().map(|p| { let (v, p) = p.into_tuple(); pr(v, p) })));
    let r: &Syn<V, Q> = AsRef::as_ref(x); s.put("vals", "as_ref", nums(r.iter()));
    let r: &Syn<V, Q> = Borrow::borrow(x); s.put("vals", "borrow", nums(r.iter()));
    s.put("len", "iter.count", x.iter().count().to_string());
    s.put("len", "iter.len", x.iter().len().to_string());
    s.put("len", "deref.len", (**x).len().to_string());
    s.put("empty", "deref.is_empty", x.is_empty().to_string());
    s.put("trailing", "deref.trailing_punct", x.trailing_punct().to_string());
    s.put("first", "deref.first", opt((**x).first()));
    s.put("last", "deref.last", opt((**x).last()));
}}}
fn see_sep(x: &Sep, s: &mut See) {
    list_views!(x, &mut *s); pair_views!(x, &mut *s);
    s.put("len", "len", x.len().get().to_string());
    s.put("first", "first", format!("[{}]", x.first().0));
    s.put("last", "last", format!("[{}]", x.last().0));
    s.put("first", "first_mut", format!("[{}]", x.clone().first_mut().0));
    s.put("last", "last_mut", format!("[{}]", x.clone().last_mut().0));
    let (f, r) = x.clone().into_first_rest();
    s.put("fr", "into_first_rest", format!("[{},{}]", f.0, list(r.iter().map(|(p, v)| format!("[{},{}]", p.0, v.0)))));
    let (l, r) = x.clone().into_last_rest();
    s.put("lr", "into_last_rest", format!("[{},{}]", l.0, list(r.iter().map(|(v, p)| format!("[{},{}]", v.0, p.0)))));
    s.put("same", "try_from", Sep::try_from(x.clone().into_inner()).map_or(false, |y| y == *x).to_string());
    s.put("same", "parse", syn::parse2::<Sep>(x.to_token_stream()).map_or(false, |y| y == *x).to_string());
}
fn see_pun(x: &Pun, s: &mut See) {
    list_views!(x, &mut *s); pair_views!(x, &mut *s);
    s.put("len", "len", x.len().to_string());
    s.put("empty", "is_empty", Punctuated::is_empty(x).to_string());
    s.put("vals", "as_mut", { let mut y = x.clone(); let r: &mut Syn<V, Q> = y.as_mut(); nums(r.iter()) });
    s.put("vals", "borrow_mut", { let mut y = x.clone(); let r: &mut Syn<V, Q> = y.borrow_mut(); nums(r.iter()) });
    s.put("same", "from", (Pun::from(x.clone().into_inner()) == *x).to_string());
    s.put("same", "parse", syn::parse2::<Pun>(x.to_token_stream()).map_or(false, |y| y == *x).to_string());
    s.put("same", "collect pairs", (x.clone().into_pairs().collect::<Pun>() == *x).to_string());
}
fn see_any(x: &Any<V>, s: &mut See) {
    list_views!(x, &mut *s);
    s.put("len", "len", x.len().to_string());
    s.put("len", "deref.len", (**x).len().to_string());
    s.put("len", "iter.len", x.iter().len().to_string());
    s.put("empty", "is_empty", x.is_empty().to_string());
    s.put("vals", "into_inner", nums(x.clone().into_inner().iter()));
    let y: Vec<V> = x.clone().into(); s.put("vals", "into", nums(y.iter()));
    let r: &[V] = x.as_ref(); s.put("vals", "as_ref[]", nums(r.iter()));
    let r: &Vec<V> = x.as_ref(); s.put("vals", "as_ref", nums(r.iter()));
    let r: &[V] = x.borrow(); s.put("vals", "borrow[]", nums(r.iter()));
    let r: &Vec<V> = x.borrow(); s.put("vals", "borrow", nums(r.iter()));
    s.put("vals", "get(..)", nums(x.get(..).unwrap().iter()));
    s.put("vals", "index[..]", nums(x[..].iter()));
    s.put("vals", "get(i)", list((0..=x.len()).filter_map(|i| x.get(i)).map(|v| v.0.to_string())));
    if x.len() > 0 { 
        s.put("tail", "get(1..)", format!("[{}]", nums(x.get(1..).unwrap().iter())));
        s.put("tail", "index[1..]", format!("[{}]", nums(x[1..].iter())));
        s.put("init", "get(..l)", format!("[{}]", nums(x.get(..x.len() - 1).unwrap().iter())));
    } else { s.put("tail", "get(1..)", match x.get(1..) { None => "[]".into(), Some(r) => format!("[{}]", nums(r.iter())) }); }
    s.put("same", "from", (Any::from(x.clone().into_inner()) == *x).to_string());
    s.put("same", "collect", (x.clone().into_iter().collect::<Any<V>>() == *x).to_string());
    s.put("same", "parse", syn::parse2::<Any<V>>(x.to_token_stream()).map_or(false, |y| y == *x).to_string());
}
fn qs<'a>(it: impl Iterator<Item = &'a Q>) -> String { list(it.map(|q| q.0.to_string())) }
fn ps<'a>(it: impl Iterator<Item = &'a (Q, V)>) -> String { list(it.map(|(p, v)| format!("[{},{}]", p.0, v.0))) }
fn see_may(x: &May, s: &mut See) {
    let c = || x.clone();
    s.put("some", "deref.is_some", x.is_some().to_string());
    s.put("some", "!deref.is_none", (!x.is_none()).to_string());
    s.put("pre", "as_prefix", qs(x.as_prefix().into_iter()));
    s.put("pre", "as_prefix_mut", list(c().as_prefix_mut().into_iter().map(|q| q.0.to_string())));
    s.put("pre", "into_prefix", qs(c().into_prefix().iter()));
    s.put("pre", "prefix_iter", qs(x.prefix_iter()));
    s.put("pre", "prefix_iter_mut", list(c().prefix_iter_mut().map(|q| q.0.to_string())));
    s.put("pre", "into_prefix_iter", list(c().into_prefix_iter().map(|q| q.0.to_string())));
    s.put("vals", "as_ref", nums(x.as_ref().into_iter()));
    s.put("vals", "as_mut", list(c().as_mut().into_iter().map(|q| q.0.to_string())));
    s.put("vals", "into_inner", nums(c().into_inner().iter()));
    s.put("vals", "iter", nums(x.iter()));
    s.put("vals", "iter_mut", list(c().iter_mut().map(|q| q.0.to_string())));
    s.put("vals", "into_iter", list(c().into_iter().map(|q| q.0.to_string())));
    s.put("vals", "&into_iter", nums(x.into_iter()));
    s.put("vals", "&mut into_iter", list((&mut c()).into_iter().map(|q| q.0.to_string())));
    s.put("parts", "as_parts", ps(x.as_parts().into_iter()));
    s.put("parts", "as_parts_mut", ps(c().as_parts_mut().into_iter().map(|p| &*p)));
    s.put("parts", "into_parts", ps(c().into_parts().iter()));
    s.put("parts", "parts_iter", ps(x.parts_iter()));
    s.put("parts", "parts_iter_mut", ps(c().parts_iter_mut().map(|p| &*p)));
    s.put("parts", "into_parts_iter", ps(c().into_parts_iter().collect::<Vec<_>>().iter()));
    s.put("parts", "deref", ps((**x).iter()));
    s.put("toks", "to_tokens", toks(x));
    s.put("toks", "display", list(x.to_string().split_whitespace().map(|t| jstr(t))));
    s.put("same", "clone", (c() == *x && hash(&c()) == hash(x)).to_string());
    s.put("same", "from option", (May::from(c().into_parts()) == *x).to_string());
    s.put("same", "parse", syn::parse2::<May>(x.to_token_stream()).map_or(false, |y| y == *x).to_string());
}

// ---------------------------------------------------------------- is there mutable access to the list inside?
struct Probe<T>(std::marker::PhantomData<T>);
macro_rules! probe { ($n:ident, $m:ident, $($b:tt)*) => {
    trait $n { fn $m(&self) -> bool { false } }
    impl<T> $n for Probe<T> {}
    impl<T> Probe<T> where T: $($b)* { fn $m(&self) -> bool { true } }
}}
probe!{ P1, deref_mut, std::ops::DerefMut<Target = Syn<V, Q>> }
probe!{ P2, as_mut, AsMut<Syn<V, Q>> }
probe!{ P3, borrow_mut, BorrowMut<Syn<V, Q>> }
probe!{ P4, from_syn, From<Syn<V, Q>> }
probe!{ P5, default, Default }

// ---------------------------------------------------------------- operations
struct Bomb<I>(I, u32);     // yields some items and then panics
impl<I: Iterator> Iterator for Bomb<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.1 == 0 { panic!("source fails") } self.1 -= 1; self.0.next() }
}
/// an iterator which says as little, or as much, about its length as it may
struct Hinted<T>(std::vec::IntoIter<T>, u32);
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 % 6 { 0 => (n, Some(n)), 1 => (0, None), 2 => (0, Some(n)), 3 => (n / 2, None), 4 => (n, None), _ => (0, Some(n + 7)) }
    }
}
thread_local! { static HINTS: std::cell::Cell<u32> = std::cell::Cell::new(0); }
/// the items as an iterator of the next kind
fn it<T>(x: Vec<T>) -> Hinted<T> { Hinted(x.into_iter(), HINTS.with(|h| { h.set(h.get() + 1); h.get() })) }
type Op<'a> = (&'a str, usize, usize);
fn syn_list(n: u32, k: usize, trail: bool) -> Syn<V, Q> {
    let mut y = Syn::new();
    for i in 0..k { y.push_value(V(n + i as u32)); if i + 1 < k || trail { y.push_punct(Q(n + i as u32)) } }
    y
}
fn pair_list(n: u32, k: usize, trail: bool) -> Vec<Pair<V, Q>> {
    (0..k).map(|i| { let m = n + i as u32; if i + 1 < k || trail { Pair::Punctuated(V(m), Q(m)) } else { Pair::End(V(m)) } }).collect()
}
fn text(n: u32, k: usize, trail: bool) -> String {
    (0..k as u32).map(|i| if i + 1 < k as u32 || trail { format!("v{} p{} ", n + i, n + i) } else { format!("v{}", n + i) }).collect()
}
fn vs(n: u32, k: usize) -> Vec<V> { (0..k as u32).map(|i| V(n + i)).collect() }
fn pv(n: u32, k: usize) -> Vec<(Q, V)> { (0..k as u32).map(|i| (Q(n + i), V(n + i))).collect() }
fn both(v: &mut V, p: Option<&mut Q>) { v.0 += BUMP; if let Some(p) = p { p.0 += BUMP } }
fn some(b: bool) -> String { if b { "some" } else { "none" }.into() }

fn mk_sep(n: &mut u32, (o, a, _): Op) -> (Sep, String) {
    let m = *n; *n += a as u32;
    let x = match o {
        "parse" => syn::parse_str(&text(m, a, false)),
        "try" => Sep::try_from(syn_list(m, a, false)),
        _ => panic!("?{o}"),
    };
    (x.expect("constructor"), "ok".into())
}
fn do_sep(x: &mut Sep, n: &mut u32, (o, a, _): Op) -> String {
    let m = *n;
    match o {
        "push" => { *n += 1; x.push(Q(m), V(m)) }
        "pushv" => { *n += 1; x.push_value(V(m)) }
        "ins" => { *n += 1; x.insert(a, V(m)) }
        "extv" => { *n += a as u32; x.extend(it(vs(m, a))) }
        "extp" => { *n += a as u32; x.extend(it(pv(m, a))) }
        "extvx" => { *n += a as u32; x.extend(Bomb(vs(m, a + 1).into_iter(), a as u32)) }
        "extpx" => { *n += a as u32; x.extend(Bomb(pv(m, a + 1).into_iter(), a as u32)) }
        "first_mut" => x.first_mut().0 += BUMP,
        "last_mut" => x.last_mut().0 += BUMP,
        "idx_mut" => x[a].0 += BUMP,
        "iter_mut" => x.iter_mut().for_each(|v| v.0 += BUMP),
        "for_mut" => for v in &mut *x { v.0 += BUMP },
        "pairs_mut" => x.pairs_mut().for_each(|p| { let (v, p) = p.into_tuple(); both(v, p) }),
        "via" => {
            *n += 1;
            let mut y: Syn<V, Q> = x.clone().into();
            match a { 0 => {} 1 => y.push_punct(Q(m)), 2 => { y.pop(); } 3 => { y.pop(); y.pop_punct(); } _ => y.clear() }
            match Sep::try_from(y) { Ok(y) => *x = y, Err(_) => return "err".into() }
        }
        "refirst" => {
            let (f, r) = x.clone().into_first_rest();
            let mut y = Syn::new(); y.push_value(f);
            let mut y = Sep::try_from(y).unwrap(); y.extend(r); *x = y;
        }
        "relast" => {
            let (l, r) = x.clone().into_last_rest();
            let mut y: Syn<V, Q> = r.into_iter().map(|(v, p)| Pair::Punctuated(v, p)).collect(); y.push_value(l);
            *x = Sep::try_from(y).unwrap();
        }
        "repairs" => *x = Sep::try_from(x.clone().into_pairs().collect::<Syn<V, Q>>()).unwrap(),
        _ => return format!("?{o}"),
    }
    "ok".into()
}
fn mk_pun(n: &mut u32, (o, a, b): Op) -> (Pun, String) {
    let m = *n; *n += a as u32;
    (match o {
        "parse" => syn::parse_str(&text(m, a, b == 1)).expect("constructor"),
        "new" => Pun::new(), "default" => Pun::default(),
        "collect" => it(vs(m, a)).collect(),
        "collectp" => it(pair_list(m, a, b == 1)).collect(),
        "syn" => Pun::from(syn_list(m, a, b == 1)),
        _ => panic!("?{o}"),
    }, "ok".into())
}
fn do_pun(x: &mut Pun, n: &mut u32, (o, a, b): Op) -> String {
    let m = *n;
    match o {
        "push" => { *n += 1; x.push(V(m)) }
        "ppush" => { *n += 1; x.push_punct(Q(m)) }
        "pop" => { x.pop(); }
        "ppop" => { x.pop_punct(); }
        "ins" => { *n += 1; x.insert(a, V(m)) }
        "extv" => { *n += a as u32; x.extend(it(vs(m, a))) }
        "extp" => { *n += a as u32; x.extend(it(pair_list(m, a, b == 1))) }
        "idx_mut" => x[a].0 += BUMP,
        "iter_mut" => x.iter_mut().for_each(|v| v.0 += BUMP),
        "for_mut" => for v in &mut *x { v.0 += BUMP },
        "pairs_mut" => x.pairs_mut().for_each(|p| { let (v, p) = p.into_tuple(); both(v, p) }),
        "resyn" => *x = Pun::from(x.clone().into_inner()),
        "reinto" => { let y: Syn<V, Q> = x.clone().into(); *x = y.into() }
        "repairs" => *x = x.clone().into_pairs().collect(),
        "recollect" => *x = x.clone().into_iter().collect(),
        "clear_mut" => x.clear(),
        "clear_asmut" => { let y: &mut Syn<V, Q> = x.as_mut(); y.clear() }
        "clear_borrow" => { let y: &mut Syn<V, Q> = x.borrow_mut(); y.clear() }
        _ => return format!("?{o}"),
    }
    "ok".into()
}
fn mk_any(n: &mut u32, (o, a, _): Op) -> (Any<V>, String) {
    let m = *n; *n += a as u32;
    (match o {
        "parse" => syn::parse_str(&vs(m, a).iter().map(|v| format!("v{} ", v.0)).collect::<String>()).expect("constructor"),
        "new" => Any::new(), "default" => Any::default(),
        "collect" => it(vs(m, a)).collect(), "vec" => Any::from(vs(m, a)),
        _ => panic!("?{o}"),
    }, "ok".into())
}
fn do_any(x: &mut Any<V>, n: &mut u32, (o, a, b): Op) -> String {
    let m = *n;
    match o {
        "push" => { *n += 1; x.push(V(m)) }
        "pop" => { x.pop(); }
        "ins" => { *n += 1; x.insert(a, V(m)) }
        "extv" => { *n += a as u32; x.extend(it(vs(m, a))) }
        "idx_mut" => x[a].0 += BUMP,
        "get_mut" => return some(x.get_mut(a).map(|v| v.0 += BUMP).is_some()),
        "rng_mut" => x[a..b].iter_mut().for_each(|v| v.0 += BUMP),
        "getr_mut" => return some(x.get_mut(a..b).map(|r| r.iter_mut().for_each(|v| v.0 += BUMP)).is_some()),
        "iter_mut" => x.iter_mut().for_each(|v| v.0 += BUMP),
        "for_mut" => for v in &mut *x { v.0 += BUMP },
        "rev_slice" => { let y: &mut [V] = x.as_mut(); y.reverse() }
        "rev_vec" => { let y: &mut Vec<V> = x.as_mut(); y.reverse() }
        "rev_bslice" => { let y: &mut [V] = x.borrow_mut(); y.reverse() }
        "rev_bvec" => { let y: &mut Vec<V> = x.borrow_mut(); y.reverse() }
        "rev_deref" => x.reverse(),
        "revec" => *x = Any::from(x.clone().into_inner()),
        "reinto" => { let y: Vec<V> = x.clone().into(); *x = y.into() }
        "recollect" => *x = x.clone().into_iter().collect(),
        _ => return format!("?{o}"),
    }
    "ok".into()
}
fn mk_may(n: &mut u32, (o, a, _): Op) -> (May, String) {
    let m = *n;
    *n += match o { "pair" | "val" => 1, "new" | "default" => 0, _ => a as u32 };
    (match o {
        "parse" => syn::parse_str(&if a == 0 { String::new() } else { format!("p{} v{}", m, m) }).expect("constructor"),
        "new" => May::new(), "default" => May::default(),
        "optpair" => May::from(if a == 0 { None } else { Some((Q(m), V(m))) }),
        "opt" => May::from(if a == 0 { None } else { Some(V(m)) }),
        "pair" => May::from((Q(m), V(m))),
        "val" => May::from(V(m)),
        _ => panic!("?{o}"),
    }, "ok".into())
}
fn do_may(x: &mut May, n: &mut u32, (o, _, _): Op) -> String {
    let m = *n;
    let mut c = 0;
    match o {
        "prefix_mut" => if let Some(p) = x.as_prefix_mut() { p.0 += BUMP; c += 1 },
        "prefix_iter_mut" => for p in x.prefix_iter_mut() { p.0 += BUMP; c += 1 },
        "as_mut" => if let Some(v) = x.as_mut() { v.0 += BUMP; c += 1 },
        "iter_mut" => for v in x.iter_mut() { v.0 += BUMP; c += 1 },
        "for_mut" => for v in &mut *x { v.0 += BUMP; c += 1 },
        "parts_mut" => if let Some((p, v)) = x.as_parts_mut() { both(v, Some(p)); c += 1 },
        "parts_iter_mut" => for (p, v) in x.parts_iter_mut() { both(v, Some(p)); c += 1 },
        "deref_mut" => { let y: &mut Option<(Q, V)> = &mut **x; if let Some((p, v)) = y { both(v, Some(p)); c += 1 } }
        "take" => if x.take().is_some() { c += 1 },
        "put" => { *n += 1; if x.replace((Q(m), V(m))).is_some() { c += 1 } }
        "reparts" => { *x = May::from(x.clone().into_parts()); return "ok".into() }
        "reinner" => { *x = May::from(x.clone().into_inner()); return "ok".into() }
        _ => return format!("?{o}"),
    }
    some(c == 1)
}
macro_rules! group { ($mk:ident, $dox:ident, $see:ident, $t:ident, $tok:ident, $as:ident, $into:ident, $open:expr, $close:expr) => {
    fn $mk(n: &mut u32, (o, _, _): Op) -> ($t<V>, String) {
        let m = *n; *n += 1;
        (match o {
            "parse" => syn::parse_str(&format!("{}v{}{}", $open, m, $close)).expect("constructor"),
            "new" => $t::new(V(m), Span::call_site()),
            "from" => $t::from(V(m)),
            "parts" => $t::from((syn::token::$tok(Span::call_site()), V(m))),
            "default" => { let (p, d) = $t::<DV>::default().into_parts(); $t::from((p, V(d.0))) }
            _ => panic!("?{o}"),
        }, "ok".into())
    }
    fn $dox(x: &mut $t<V>, _: &mut u32, (o, _, _): Op) -> String {
        match o {
            "deref_mut" => x.0 += BUMP,
            "as_mut" => { let v: &mut V = x.as_mut(); v.0 += BUMP }
            "reparts" => *x = $t::from(x.clone().into_parts()),
            _ => return format!("?{o}"),
        }
        "ok".into()
    }
    fn $see(x: &$t<V>, s: &mut See) {
        s.put("vals", "deref", format!("[{}]", (**x).0));
        let v: &V = x.as_ref(); s.put("vals", "as_ref", format!("[{}]", v.0));
        s.put("vals", "as_parts", format!("[{}]", x.as_parts().1.0));
        s.put("vals", "into_parts", format!("[{}]", x.clone().into_parts().1.0));
        s.put("vals", "into_inner", format!("[{}]", x.clone().into_inner().0));
        s.put("delim", "to_tokens", { let g = x.to_token_stream().to_string(); ["(", "[", "{"].iter().position(|c| g.starts_with(c)).map_or(-1, |k| k as i64).to_string() });
        s.put("same", "clone", (x.clone() == *x && hash(&x.clone()) == hash(x)).to_string());
        s.put("same", "parse", syn::parse2::<$t<V>>(x.to_token_stream()).map_or(false, |y| y == *x).to_string());
        s.put("same", "into tokens", { let _ = (x.$as(), x.clone().$into()); true }.to_string());
    }
}}
group!(mk_par, do_par, see_par, Paren, Paren, as_parens, into_parens, "(", ")");
group!(mk_bra, do_bra, see_bra, Bracket, Bracket, as_brackets, into_brackets, "[", "]");
group!(mk_brc, do_brc, see_brc, Brace, Brace, as_braces, into_braces, "{", "}");

fn play<T>(ops: &[Op], mk: fn(&mut u32, Op) -> (T, String), op: fn(&mut T, &mut u32, Op) -> String, see: fn(&T, &mut See)) -> String {
    let mut n = 1;
    let mut o = String::from("{\"r\":\"ok\",\"steps\":[");
    let mut x: Option<T> = None;
    for (i, p) in ops.iter().enumerate() {
        let r = match &mut x {
            None => { let (y, r) = match catch_unwind(AssertUnwindSafe(|| mk(&mut n, *p))) {
                          Ok(z) => z, Err(_) => { o.push_str("{\"r\":\"panic\",\"see\":[]}"); break } };
                      x = Some(y); r }
            Some(x) => catch_unwind(AssertUnwindSafe(|| op(x, &mut n, *p))).unwrap_or("panic".into()),
        };
        let mut s = See(vec![], vec![]);
        let x = x.as_ref().unwrap();
        let dead = catch_unwind(AssertUnwindSafe(|| see(x, &mut s))).is_err();
        if i > 0 { o.push(',') }
        let _ = write!(o, "{{\"r\":{},\"dead\":{},\"see\":[{}]}}", jstr(&r), dead, s.0.join(","));
    }
    o.push_str("]}");
    o
}
fn dispatch(f: &[&str]) -> String {
    if f[0] == "probe" {
        let p = Probe::<Sep>(std::marker::PhantomData);
        return format!("{{\"r\":\"ok\",\"deref_mut\":{},\"as_mut\":{},\"borrow_mut\":{},\"from\":{},\"default\":{}}}",
                       p.deref_mut(), p.as_mut(), p.borrow_mut(), p.from_syn(), p.default());
    }
    HINTS.with(|h| h.set(f[1].bytes().map(u32::from).sum()));
    let ops: Vec<Op> = f[1].split(';').map(|s| { let t: Vec<&str> = s.split(':').collect(); (t[0], t[1].parse().unwrap(), t[2].parse().unwrap()) }).collect();
    match f[0] {
        "sep" => play(&ops, mk_sep, do_sep, see_sep),
        "punct" => play(&ops, mk_pun, do_pun, see_pun),
        "any" => play(&ops, mk_any, do_any, see_any),
        "maybe" => play(&ops, mk_may, do_may, see_may),
        "group" => match ops[0].1 {
            0 => play(&ops, mk_par, do_par, see_par),
            1 => play(&ops, mk_bra, do_bra, see_bra),
            _ => play(&ops, mk_brc, do_brc, see_brc),
        },
        _ => String::new(),
    }
}
fn main() { serve(dispatch) }
