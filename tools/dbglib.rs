#![allow(dead_code, unused_imports)]
use harness::*;
use std::fmt::{self, Debug, Display, Formatter};
use parsel::ast::*;
use parsel::{proc_macro2::Ident, syn, Span};

/// a leaf that shows its name and the options it was asked with
struct W(String); struct S(String);
fn echo(t: &str, f: &mut Formatter<'_>) -> fmt::Result {
    write!(f, "{}{}{}{:?}{:?}{:?}{}", t, if f.alternate() { "#" } else { "" }, if f.sign_plus() { "+" } else { "" }, f.width(), f.precision(), f.fill(), match f.align() { None => "", Some(fmt::Alignment::Left) => "<", Some(fmt::Alignment::Center) => "^", Some(fmt::Alignment::Right) => ">" })?;
    if f.sign_aware_zero_pad() { f.write_str("0")? }
    if f.alternate() { f.write_str("\nlast ")? }
    Debug::fmt(&255u8, f)
}
macro_rules! leaf { ($($t:ident)*) => { $(
    impl Debug for $t { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { echo(&self.0, f) } }
    impl Display for $t { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { echo(&self.0, f) } }
    impl Build for $t { fn build(i: &mut It) -> Self { $t(i.node().1) } }
    impl parsel::ToTokens for $t { fn to_tokens(&self, _: &mut parsel::proc_macro2::TokenStream) {} }
)* } }
leaf!(W S);
parsel::define_keywords!{ mod kw { yes => Yes; fn => Fn; _ => Under; } }

struct It<'a>(std::str::SplitWhitespace<'a>);
impl It<'_> { fn node(&mut self) -> (String, String, usize) { let w = self.0.next().unwrap(); let mut p = w.split('\u{1}'); (p.next().unwrap().into(), p.next().unwrap().into(), p.next().unwrap().parse().unwrap()) } }
trait Build: Sized + parsel::ToTokens { fn build(i: &mut It) -> Self; }
macro_rules! word { ($($t:ident)*) => { $( impl Build for kw::$t { fn build(i: &mut It) -> Self { i.node(); kw::$t::new(Span::call_site()) } } )* } }
word!(Yes Fn Under);
macro_rules! unit { ($($t:ident)*) => { $( impl Build for $t { fn build(i: &mut It) -> Self { i.node(); $t::new() } } )* } }
unit!(Empty Eof NotEof);
impl<T: Build> Build for Any<T> { fn build(i: &mut It) -> Self { let n = i.node().2; (0..n).map(|_| T::build(i)).collect() } }
fn syn_list<T: Build, P: Build>(i: &mut It) -> syn::punctuated::Punctuated<T, P> {
    let n = i.node().2; let mut l = syn::punctuated::Punctuated::new();
    for k in 0..n { if k % 2 == 0 { l.push_value(T::build(i)) } else { l.push_punct(P::build(i)) } }
    l
}
impl<T: Build, P: Build> Build for Punctuated<T, P> { fn build(i: &mut It) -> Self { syn_list(i).into() } }
impl<T: Build, P: Build> Build for Separated<T, P> { fn build(i: &mut It) -> Self { Separated::try_from(syn_list(i)).ok().expect("a separated list") } }
impl<P: Build, T: Build> Build for Maybe<P, T> { fn build(i: &mut It) -> Self { if i.node().0 == "none" { None::<(P, T)>.into() } else { Some((P::build(i), T::build(i))).into() } } }
fn is_chain(i: &It, s: &str) -> bool { i.0.clone().next().unwrap().starts_with(&format!("chain\u{1}{s}")) }
impl<O: Build, R: Build> Build for LeftAssoc<O, R> { fn build(i: &mut It) -> Self {
    if is_chain(i, "l") { i.node(); LeftAssoc::Binary { lhs: Box::new(Self::build(i)), op: O::build(i), rhs: R::build(i) } } else { LeftAssoc::Rhs(R::build(i)) } } }
impl<O: Build, L: Build> Build for RightAssoc<O, L> { fn build(i: &mut It) -> Self {
    if is_chain(i, "r") { i.node(); RightAssoc::Binary { lhs: L::build(i), op: O::build(i), rhs: Box::new(Self::build(i)) } } else { RightAssoc::Lhs(L::build(i)) } } }
impl<L: Build, R: Build> Build for Either<L, R> { fn build(i: &mut It) -> Self { if i.node().1 == "L" { Either::Left(L::build(i)) } else { Either::Right(R::build(i)) } } }

// leaves that are not ours: what the wrapper shows is what they show
struct Twin(Box<dyn Fn(usize) -> String>);
fn ident(t: &str) -> Ident { match t.strip_prefix("r#") { Some(x) => Ident::new_raw(x, Span::call_site()), None => Ident::new(t, Span::call_site()) } }
impl Build for CustomIdent<kw::Keywords> { fn build(i: &mut It) -> Self { i.node(); CustomIdent::try_from(ident(&i.node().1)).ok().expect("an identifier") } }
macro_rules! lits { ($($n:literal $v:ident $e:expr),*) => {
    fn lit(n: &str) -> Lit { match n { $($n => Lit::$v($e),)* n => panic!("{}", n) } }
    fn twin(n: &str, o: usize) -> String { match n { $($n => show($e, o),)* n => show(ident(n), o) } }
} }
lits!("#bool" Bool LitBool::new(true, Span::call_site()), "#byte" Byte LitByte::new(b'q', Span::call_site()), "#int" Int LitInt::new(-5, Span::call_site()),
      "#uint" Uint LitUint::new(1234567, Span::call_site()), "#float" Float LitFloat::new(parsel::NotNan::new(1.5).unwrap(), Span::call_site()), "#char" Char LitChar::new('c', Span::call_site()),
      "#str" Str LitStr::new("s t".to_string(), Span::call_site()), "#bytes" ByteStr LitByteStr::new(vec![1, 2], Span::call_site()));
impl Build for Lit { fn build(i: &mut It) -> Self { i.node(); lit(&i.node().1) } }

fn show<T: Debug + Display>(x: T, o: usize) -> String { if o <= DEBUGS { debug(x, o) } else { match o - DEBUGS { 1 => format!("{}", x), 2 => format!("{:#}", x), 3 => format!("{:*^9.3}", x), 4 => format!("{:>+08}", x), _ => panic!() } } }
const DEBUGS: usize = 8;
fn debug<T: Debug>(x: T, o: usize) -> String { match o {
    1 => format!("{:?}", x), 2 => format!("{:#?}", x), 3 => format!("{:9?}", x), 4 => format!("{:#.2?}", x), 5 => format!("{:*>+9.3?}", x), 6 => format!("{:^#7X?}", x), 7 => format!("{:08?}", x), 8 => format!("{:<#04.1x?}", x), _ => panic!() } }

type Op = Either<S, kw::Yes>;
fn answer(ty: &str, val: &str, o: usize) -> String {
    let mut it = It(val.split_whitespace()); let i = &mut it;
    macro_rules! d { ($t:ty) => { debug(<$t>::build(i), o) } }
    macro_rules! s { ($t:ty) => { show(<$t>::build(i), o) } }
    let text = match ty {
        "leaf" => { let n = i.node().1; match &n[..] { "a" | "b" | "c" => show(W(n), o), "," | ";" => show(S(n), o), n => twin(n, o) } }
        "yes" => s!(kw::Yes), "fn" => s!(kw::Fn), "under" => s!(kw::Under),
        "empty" => s!(Empty), "eof" => s!(Eof), "noteof" => s!(NotEof),
        "ident" => s!(CustomIdent<kw::Keywords>), "lit" => s!(Lit), "either" => s!(Either<W, kw::Fn>), "either2" => s!(Either<Either<kw::Yes, Lit>, CustomIdent<kw::Keywords>>),
        "keywords" => d!(Kws),
        "any" => d!(Any<W>), "many" => d!(Many<W>), "punct" => d!(Punctuated<W, S>), "sep" => d!(Separated<W, S>), "maybe" => d!(Maybe<kw::Yes, W>), "flag" => d!(Maybe<kw::Fn>),
        "left" => d!(LeftAssoc<S, W>), "right" => d!(RightAssoc<S, W>),
        "left-op" => d!(LeftAssoc<Op, Either<W, Lit>>), "right-op" => d!(RightAssoc<Op, Either<W, Lit>>),
        "sep-maybe" => d!(Separated<Maybe<kw::Yes, W>, S>), "punct-op" => d!(Punctuated<Either<W, CustomIdent<kw::Keywords>>, Op>),
        "sep-any" => d!(Separated<Any<W>, Op>), "any-any" => d!(Any<Any<W>>), "maybe-left" => d!(Maybe<kw::Yes, LeftAssoc<S, W>>),
        "left-any" => d!(LeftAssoc<S, Any<W>>), "right-sep" => d!(RightAssoc<Op, Separated<W, S>>), "left-right" => d!(LeftAssoc<kw::Fn, RightAssoc<S, W>>), "left-opt" => d!(LeftAssoc<Maybe<kw::Fn, Many<W>>, W>), "right-opt" => d!(RightAssoc<Maybe<kw::Fn, Many<W>>, W>),
        "maybe-maybe" => d!(Maybe<Maybe<kw::Yes, W>, Maybe<S, W>>), "many-sep" => d!(Many<Separated<W, S>>),
        "paren" => d!(Held<Paren<Separated<W, S>>>), "bracket" => d!(Held<Bracket<Separated<W, S>>>), "brace" => d!(Held<Brace<Separated<W, S>>>),
        t => panic!("no type {}", t),
    };
    format!("{{\"r\":\"ok\",\"out\":{}}}", jstr(&text))
}
struct Kws(kw::Keywords);
impl Build for Kws { fn build(i: &mut It) -> Self { i.node(); Kws(kw::Keywords) } }
impl Debug for Kws { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { Debug::fmt(&self.0, f) } }
/// the text of delimited content is within the text of the group
struct Held<G>(G);
impl<G> parsel::ToTokens for Held<G> { fn to_tokens(&self, _: &mut parsel::proc_macro2::TokenStream) {} }
impl parsel::ToTokens for Kws { fn to_tokens(&self, _: &mut parsel::proc_macro2::TokenStream) {} }
trait Group { type C: Build + Debug; fn of(c: Self::C) -> Self; fn content(&self) -> &Self::C; }
macro_rules! group { ($($g:ident)*) => { $( impl<T: Build + Debug> Group for $g<T> { type C = T; fn of(c: T) -> Self { $g::new(c, Span::call_site()) } fn content(&self) -> &T { self } } )* } }
group!(Paren Bracket Brace);
impl<G: Group> Build for Held<G> { fn build(i: &mut It) -> Self { Held(G::of(G::C::build(i))) } }
impl<G: Group + Debug> Debug for Held<G> { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
    macro_rules! both { ($l:literal) => { (format!($l, self.0), format!($l, self.0.content())) } }
    let (all, inner) = if f.alternate() { both!("{:#?}") } else { both!("{:?}") };
    let trim = |s: &str| s.lines().map(str::trim).collect::<Vec<_>>().join("\n");
    if trim(&all).contains(&trim(&inner)) { Debug::fmt(self.0.content(), f) } else { write!(f, "{all} does not show {inner}") }
} }

fn main() { serve(|p| answer(p[0], p[1], p[2].parse().unwrap())) }
