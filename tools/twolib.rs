#![allow(dead_code, unused_imports, unused_must_use)]
use harness::*;
use std::collections::VecDeque;
use std::fmt::{self, Write as _};
use std::iter::FusedIterator;
use std::panic::{catch_unwind, AssertUnwindSafe};
use parsel::ast::Either;

const BUMP: u32 = 1000;
trait Pay: Clone + PartialEq + fmt::Debug + fmt::Display { const TY: &'static str; fn new(n: u32) -> Self; fn n(&self) -> u32; fn bump(&mut self); }
macro_rules! pay { ($t:ident, $s:expr) => {
    #[derive(Clone, PartialEq, Debug)] struct $t(u32);
    impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}{}", $s, self.0) } }
    impl Pay for $t { const TY: &'static str = $s; fn new(n: u32) -> Self { $t(n) } fn n(&self) -> u32 { self.0 } fn bump(&mut self) { self.0 += BUMP } }
}}
pay!(A, "a"); pay!(B, "b");

#[derive(Clone)]
struct It<T> { q: VecDeque<u32>, h: u32, t: std::marker::PhantomData<T> }
impl<T: Pay> It<T> {
    fn new(xs: &[u32], h: u32) -> Self { It { q: xs.iter().copied().collect(), h, t: std::marker::PhantomData } }
    fn ans(x: Option<u32>) -> Option<T> { match x { Some(0) | None => None, Some(n) => Some(T::new(n)) } }
}
impl<T: Pay> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { Self::ans(self.q.pop_front()) }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.q.len();
        match self.h { 0 => (n, Some(n)), 1 => (n / 2, None), _ => (0, Some(n + 3)) }
    }
}
impl<T: Pay> DoubleEndedIterator for It<T> { fn next_back(&mut self) -> Option<T> { Self::ans(self.q.pop_back()) } }
impl<T: Pay> ExactSizeIterator for It<T> {}
impl<T: Pay> FusedIterator for It<T> {}

struct See(Vec<String>, Vec<(String, String)>);
impl See {
    fn put(&mut self, view: &str, acc: &str, v: String) {
        if self.1.iter().any(|(a, b)| a == view && *b == v) { return }
        self.0.push(format!("[{},{},{}]", jstr(view), jstr(acc), v));
        self.1.push((view.into(), v));
    }
}
fn list(it: impl Iterator<Item = u32>) -> String { format!("[{}]", it.map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn lr<L: Pay, R: Pay>(l: Option<&L>, r: Option<&R>) -> String { format!("[{},{}]", list(l.into_iter().map(Pay::n)), list(r.into_iter().map(Pay::n))) }
fn ans<L: Pay, R: Pay>(side: &Either<(), ()>, x: Option<Either<L, R>>) -> String {
    // the side and the type of what came out; of the value itself, when nothing came out
    let (s, ty, v) = match x {
        None => (if side.is_left() { "L" } else { "R" }, if side.is_left() { L::TY } else { R::TY }, String::new()),
        Some(Either::Left(x)) => ("L", L::TY, x.n().to_string()),
        Some(Either::Right(x)) => ("R", R::TY, x.n().to_string()),
    };
    format!("{{\"side\":\"{}\",\"ty\":\"{}\",\"v\":[{}]}}", s, ty, v)
}
fn tag<L, R>(e: &Either<L, R>) -> Either<(), ()> { match e { Either::Left(_) => Either::Left(()), Either::Right(_) => Either::Right(()) } }

/// what can be done with a two-way value of some kind
trait Kind: Sized {
    type Flip: Kind<Flip = Self>;
    fn see(&self, s: &mut See);
    fn op(&mut self, o: &str, a: usize, n: u32) -> String;
    fn flipped(self) -> Self::Flip;
}
fn bump<T: Pay>(mut x: T) -> T { x.bump(); x }
fn no<T: Pay>(x: &Either<(), ()>, l: &str, r: &str) -> String { let _ = x; let _ = (l, r); String::new() }

#[derive(Clone)] struct Val<L, R>(Either<L, R>);
fn basic<L: Pay, R: Pay>(e: &Either<L, R>, s: &mut See) {
    s.put("isl", "is_left", e.is_left().to_string());
    s.put("isr", "is_right", e.is_right().to_string());
    s.put("lr", "left/right", lr(e.clone().left().as_ref(), e.clone().right().as_ref()));
    s.put("lr", "match", match e { Either::Left(x) => lr::<L, R>(Some(x), None), Either::Right(x) => lr::<L, R>(None, Some(x)) });
    let r: Either<&L, &R> = Either::as_ref(e);
    s.put("lr", "as_ref", lr(r.left(), r.right()));
    let mut c = e.clone();
    s.put("lr", "as_mut.left", lr::<L, R>(Either::as_mut(&mut c).left().map(|x| &*x), e.clone().right().as_ref()));
    s.put("lr", "as_mut.right", lr::<L, R>(e.clone().left().as_ref(), Either::as_mut(&mut c).right().map(|x| &*x)));
    s.put("ty", "left/right", jstr(if e.clone().left().is_some() { L::TY } else { R::TY }));
    s.put("ty", "display", jstr(&e.to_string()[..1]));
    s.put("ty", "debug", jstr(&format!("{:?}", e).to_lowercase()[..1]));
    s.put("lr", "flip.flip", { let x = e.clone().flip().flip(); lr(x.clone().left().as_ref(), x.right().as_ref()) });
    s.put("lr", "map", { let x = e.clone().map(|l| Some(l), |r| Some(r)); match x { Either::Left(l) => lr::<L, R>(l.as_ref(), None), Either::Right(r) => lr::<L, R>(None, r.as_ref()) } });
    s.put("inner", "map.into_inner", list(Some(e.clone().map(|l| l.n(), |r| r.n()).into_inner()).into_iter()));
    // no or one item on either side
    s.put("lr", "transpose option", { let x = e.clone().map(Some, Some).transpose(); lr(x.clone().and_then(Either::left).as_ref(), x.and_then(Either::right).as_ref()) });
    s.put("lr", "transpose result", { let x: parsel::Result<_> = e.clone().map(Ok, Ok).transpose(); let x = x.ok(); lr(x.clone().and_then(Either::left).as_ref(), x.and_then(Either::right).as_ref()) });
    let q = e.clone().map(|l| vec![l], |r| vec![r]).into_iter();
    let v: Vec<Either<L, R>> = q.collect();
    s.put("lr", "into_iter", lr(v.iter().find_map(|x| Either::as_ref(x).left()), v.iter().find_map(|x| Either::as_ref(x).right())));
}
impl<L: Pay, R: Pay> Kind for Val<L, R> {
    type Flip = Val<R, L>;
    fn see(&self, s: &mut See) { basic(&self.0, s) }
    fn op(&mut self, o: &str, _: usize, _: u32) -> String {
        let e = &mut self.0;
        match o {
            "map" => *e = e.clone().map(bump, bump),
            "mapl" => *e = e.clone().map(bump, |r| r),
            "mapr" => *e = e.clone().map(|l| l, bump),
            "as_mut" => match Either::as_mut(e) { Either::Left(l) => l.bump(), Either::Right(r) => r.bump() },
            _ => return format!("\"?{}\"", o),
        }
        ans::<L, R>(&tag(e), None)
    }
    fn flipped(self) -> Val<R, L> { Val(self.0.flip()) }
}
/// both sides of one type (the side it came from is kept beside it, to keep the types apart)
#[derive(Clone)] struct Same(Either<A, A>, bool);
impl Kind for Same {
    type Flip = Same;
    fn see(&self, s: &mut See) {
        let e = &self.0;
        s.put("isl", "is_left", e.is_left().to_string());
        s.put("isr", "is_right", e.is_right().to_string());
        s.put("lr", "left/right", lr(e.clone().left().as_ref(), e.clone().right().as_ref()));
        s.put("inner", "into_inner", list(Some(e.clone().into_inner().0).into_iter()));
        let r: &A = AsRef::<A>::as_ref(e); s.put("inner", "as_ref", list(Some(r.0).into_iter()));
        s.put("inner", "deref", list(Some((**e).0).into_iter()));
        let mut c = e.clone(); let r: &mut A = AsMut::<A>::as_mut(&mut c); s.put("inner", "as_mut", list(Some(r.0).into_iter()));
        let mut c = e.clone(); let r: &mut A = &mut *c; s.put("inner", "deref_mut", list(Some(r.0).into_iter()));
    }
    fn op(&mut self, o: &str, _: usize, _: u32) -> String {
        let e = &mut self.0;
        match o {
            "as_mut_t" => AsMut::<A>::as_mut(e).bump(),
            "deref_mut" => (**e).bump(),
            "mapl" => *e = e.clone().map(bump, |r| r),
            "mapr" => *e = e.clone().map(|l| l, bump),
            _ => return format!("\"?{}\"", o),
        }
        let side = if e.is_left() { "L" } else { "R" };
        format!("{{\"side\":\"{}\",\"ty\":\"{}\",\"v\":[]}}", side, if self.1 { "a" } else { "b" })
    }
    fn flipped(self) -> Same { Same(self.0.flip(), self.1) }
}
#[derive(Clone)] struct Opt<L, R>(Either<Option<L>, Option<R>>);
impl<L: Pay, R: Pay> Kind for Opt<L, R> {
    type Flip = Opt<R, L>;
    fn see(&self, s: &mut See) {
        let e = &self.0;
        s.put("isl", "is_left", e.is_left().to_string());
        s.put("isr", "is_right", e.is_right().to_string());
        let t = e.clone().transpose();
        s.put("lr", "transpose", lr(t.clone().and_then(Either::left).as_ref(), t.clone().and_then(Either::right).as_ref()));
        s.put("lr", "left/right", lr(e.clone().left().flatten().as_ref(), e.clone().right().flatten().as_ref()));
        s.put("inner", "transpose", list(t.map(|x| x.map(|l| l.n(), |r| r.n()).into_inner()).into_iter()));
    }
    fn op(&mut self, o: &str, _: usize, _: u32) -> String {
        let e = &mut self.0;
        match o {
            "map" => *e = e.clone().map(|l| l.map(bump), |r| r.map(bump)),
            "as_mut" => match Either::as_mut(e) { Either::Left(l) => { l.as_mut().map(Pay::bump); } Either::Right(r) => { r.as_mut().map(Pay::bump); } },
            _ => return format!("\"?{}\"", o),
        }
        ans::<L, R>(&tag(e), None)
    }
    fn flipped(self) -> Opt<R, L> { Opt(self.0.flip()) }
}
struct Res<L, R>(Either<parsel::Result<L>, parsel::Result<R>>);
fn err() -> parsel::Error { parsel::Error::new(parsel::Span::call_site(), "the error") }
impl<L: Pay, R: Pay> Res<L, R> {
    fn dup(&self) -> Either<parsel::Result<L>, parsel::Result<R>> {
        match &self.0 { Either::Left(x) => Either::Left(x.clone()), Either::Right(x) => Either::Right(x.clone()) }
    }
}
impl<L: Pay, R: Pay> Kind for Res<L, R> {
    type Flip = Res<R, L>;
    fn see(&self, s: &mut See) {
        s.put("isl", "is_left", self.0.is_left().to_string());
        s.put("isr", "is_right", self.0.is_right().to_string());
        match self.dup().transpose() {
            Ok(t) => {
                s.put("lr", "transpose", lr(t.clone().left().as_ref(), t.clone().right().as_ref()));
                s.put("inner", "transpose", list(Some(t.map(|l| l.n(), |r| r.n()).into_inner()).into_iter()));
            }
            Err(e) => s.put("lr", "transpose", if e.to_string() == "the error" { "[[],[]]".into() } else { "\"another error\"".into() }),
        }
    }
    fn op(&mut self, o: &str, _: usize, _: u32) -> String {
        match o {
            "map" => self.0 = self.dup().map(|l| l.map(bump), |r| r.map(bump)),
            _ => return format!("\"?{}\"", o),
        }
        ans::<L, R>(&tag(&self.0), None)
    }
    fn flipped(self) -> Res<R, L> { Res(self.0.flip()) }
}
#[derive(Clone)] struct Ext(Either<Vec<u32>, VecDeque<u32>>);
impl Kind for Ext {
    type Flip = ExtF;
    fn see(&self, s: &mut See) { see_ext(&self.0, s, |e| e.clone().into_iter()) }
    fn op(&mut self, o: &str, a: usize, n: u32) -> String { op_ext(&mut self.0, o, a, n, "a", "b") }
    fn flipped(self) -> ExtF { ExtF(self.0.flip()) }
}
#[derive(Clone)] struct ExtF(Either<VecDeque<u32>, Vec<u32>>);
impl Kind for ExtF {
    type Flip = Ext;
    fn see(&self, s: &mut See) { see_ext(&self.0, s, |e| e.clone().into_iter()) }
    fn op(&mut self, o: &str, a: usize, n: u32) -> String { op_ext(&mut self.0, o, a, n, "b", "a") }
    fn flipped(self) -> Ext { Ext(self.0.flip()) }
}
fn see_ext<L, R, I, J>(e: &Either<L, R>, s: &mut See, it: impl Fn(&Either<L, R>) -> Either<I, J>)
where L: Clone + IntoIterator<Item = u32>, R: Clone + IntoIterator<Item = u32>, I: Iterator<Item = u32>, J: Iterator<Item = u32> {
    s.put("isl", "is_left", e.is_left().to_string());
    s.put("isr", "is_right", e.is_right().to_string());
    let o = |x: Option<Vec<u32>>| list(x.unwrap_or_default().into_iter());
    s.put("lr", "left/right", format!("[{},{}]", o(e.clone().left().map(|l| l.into_iter().collect())), o(e.clone().right().map(|l| l.into_iter().collect()))));
    let (mut l, mut r) = (vec![], vec![]);
    for x in it(e) { match x { Either::Left(x) => l.push(x), Either::Right(x) => r.push(x) } }
    s.put("lr", "into_iter", format!("[{},{}]", list(l.into_iter()), list(r.into_iter())));
    s.put("inner", "into_iter", list(Iterator::map(it(e), |x| x.into_inner())));
}
fn op_ext<L: Extend<u32>, R: Extend<u32>>(e: &mut Either<L, R>, o: &str, a: usize, n: u32, l: &str, r: &str) -> String {
    match o {
        "extend" if (a as u32 + n) % 2 == 0 => { let mut i = 0; e.extend(std::iter::from_fn(move || { i += 1; if i <= a as u32 { Some(n + i) } else { None } })) }
        "extend" => e.extend((0..a as u32).map(|i| n + i + 1)),
        _ => return format!("\"?{}\"", o),
    }
    let left = e.is_left();
    format!("{{\"side\":\"{}\",\"ty\":\"{}\",\"v\":[]}}", if left { "L" } else { "R" }, if left { l } else { r })
}
#[derive(Clone)] struct Iters<L, R>(Either<It<L>, It<R>>);
impl<L: Pay, R: Pay> Kind for Iters<L, R> {
    type Flip = Iters<R, L>;
    fn see(&self, s: &mut See) {
        let e = &self.0;
        s.put("isl", "is_left", e.is_left().to_string());
        s.put("isr", "is_right", e.is_right().to_string());
        let c = || e.clone();
        let num = |x: Either<L, R>| x.map(|l| l.n(), |r| r.n()).into_inner();
        let (lo, hi) = e.size_hint();
        s.put("hint", "size_hint", format!("[{},{}]", lo, hi.map_or(-1, |x| x as i64)));
        s.put("count", "count", c().count().to_string());
        s.put("count", "fold", c().fold(0, |n, _| n + 1).to_string());
        s.put("last", "last", list(c().last().map(num).into_iter()));
        s.put("items", "collect", list(c().collect::<Vec<_>>().into_iter().map(num)));
        s.put("items", "for", { let mut v = vec![]; for x in c() { v.push(num(x)) } list(v.into_iter()) });
        s.put("items", "for_each", { let mut v = vec![]; c().for_each(|x| v.push(num(x))); list(v.into_iter()) });
        s.put("items", "rev.rfold", { list(c().rev().rfold(vec![], |mut v, x| { v.push(num(x)); v }).into_iter()) });
        s.put("ritems", "rev.collect", list(c().rev().collect::<Vec<_>>().into_iter().map(num)));
        s.put("ritems", "rfold", { list(c().rfold(vec![], |mut v, x| { v.push(num(x)); v }).into_iter()) });
        let mut sd: Vec<String> = Iterator::map(c(), |x| if x.is_left() { "L" } else { "R" }.into()).collect(); sd.dedup();
        s.put("sides", "next", format!("[{}]", sd.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")));
        let exact = e.clone().map(|l| l.h, |r| r.h).into_inner() == 0;
        if exact { s.put("len", "len", e.len().to_string()); } else { s.put("nolen", "-", "true".into()); }
    }
    fn op(&mut self, o: &str, a: usize, _: u32) -> String {
        let e = &mut self.0;
        let t = tag(e);
        let x = match o { "next" => e.next(), "back" => e.next_back(), "nth" => e.nth(a), "nthb" => e.nth_back(a),
            "find" => { let mut i = 0; e.find(|_| { i += 1; i > a }) }
            "rfind" => { let mut i = 0; e.rfind(|_| { i += 1; i > a }) }
            "fold" => e.try_fold(0, |i, x| if i < a { Ok(i + 1) } else { Err(x) }).err(),
            "rfold" => e.try_rfold(0, |i, x| if i < a { Ok(i + 1) } else { Err(x) }).err(),
            "skip" => e.by_ref().skip(a).next(),
            "rskip" => e.by_ref().rev().skip(a).next(),
            _ => return format!("\"?{}\"", o) };
        ans::<L, R>(&t, x)
    }
    fn flipped(self) -> Iters<R, L> { Iters(self.0.flip()) }
}

enum X<K: Kind> { N(K), F(K::Flip) }
fn play<K: Kind>(x: K, ops: &[(&str, usize)]) -> String {
    let mut x = Some(X::N(x));
    let mut o = String::from("{\"r\":\"ok\",\"steps\":[");
    let mut see = |x: &X<K>, o: &mut String, r: String, first: bool| {
        let mut s = See(vec![], vec![]);
        match x { X::N(k) => k.see(&mut s), X::F(k) => k.see(&mut s) }
        let _ = write!(o, "{}{{\"r\":{},\"see\":[{}]}}", if first { "" } else { "," }, r, s.0.join(","));
    };
    see(x.as_ref().unwrap(), &mut o, "null".into(), true);
    for (i, (op, a)) in ops.iter().enumerate() {
        let r;
        if *op == "flip" {
            x = Some(match x.take().unwrap() { X::N(k) => X::F(k.flipped()), X::F(k) => X::N(k.flipped()) });
            r = "\"flip\"".to_string();
        } else {
            let n = 10 * (i as u32 + 1);
            r = match x.as_mut().unwrap() { X::N(k) => k.op(op, *a, n), X::F(k) => k.op(op, *a, n) };
        }
        see(x.as_ref().unwrap(), &mut o, r, false);
    }
    o.push_str("]}");
    o
}
struct Probe<T>(std::marker::PhantomData<T>);
trait P1 { fn fused(&self) -> bool { false } }
impl<T> P1 for Probe<T> {}
impl<T: FusedIterator> Probe<T> { fn fused(&self) -> bool { true } }
fn two<L, R>(left: bool, l: impl FnOnce() -> L, r: impl FnOnce() -> R) -> Either<L, R> { if left { Either::Left(l()) } else { Either::Right(r()) } }

fn dispatch(f: &[&str]) -> String {
    if f[0] == "probe" { return format!("{{\"r\":\"ok\",\"fused\":{}}}", Probe::<Either<It<A>, It<B>>>(std::marker::PhantomData).fused()); }
    let left = f[1] == "L";
    let xs: Vec<u32> = f[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let h: u32 = f[3].parse().unwrap();
    let ops: Vec<(&str, usize)> = f[4].split(';').filter(|s| !s.is_empty()).map(|s| { let (a, b) = s.split_once(':').unwrap(); (a, b.parse().unwrap()) }).collect();
    let first = xs.first().copied();
    match f[0] {
        "val" => play(Val(two(left, || A::new(first.unwrap()), || B::new(first.unwrap()))), &ops),
        "same" => play(Same(two(left, || A::new(first.unwrap()), || A::new(first.unwrap())), left), &ops),
        "opt" => play(Opt(two(left, || first.map(A::new), || first.map(B::new))), &ops),
        "res" => play(Res(two(left, || first.map(A::new).ok_or_else(err), || first.map(B::new).ok_or_else(err))), &ops),
        "ext" => play(Ext(two(left, || xs.clone(), || xs.iter().copied().collect())), &ops),
        "iter" => play(Iters(two(left, || It::<A>::new(&xs, h), || It::<B>::new(&xs, h))), &ops),
        _ => String::new(),
    }
}
fn main() { serve(dispatch) }
