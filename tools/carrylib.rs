#![allow(dead_code, unused_imports, clippy::all)]
// C29: located values, their forms and conversions
use harness::*;
use parsel::ast::*;
use parsel::{Error, Result, Span, Spanned, ToTokens};
use parsel::proc_macro2::{Delimiter, Group, Ident as PIdent, TokenStream, TokenTree, Literal};
use parsel::syn;
use parsel::syn::ext::IdentExt;
use std::convert::TryFrom;

parsel::define_keywords! { mod kw { foo => Foo; if => If; } }
type Ci = CustomIdent<kw::Keywords>;

#[derive(Clone)] enum Own { Bool(LitBool), Byte(LitByte), Int(LitInt), Uint(LitUint), Float(LitFloat), Char(LitChar), Str(LitStr), Bytes(LitByteStr) }
#[derive(Clone)] enum Syn { Bool(syn::LitBool), Byte(syn::LitByte), Num(syn::LitInt), Float(syn::LitFloat), Char(syn::LitChar), Str(syn::LitStr), Bytes(syn::LitByteStr) }
#[derive(Clone)] enum Raw { Bool(bool), Byte(u8), Int(i64), Uint(u64), Float(parsel::NotNan<f64>), Char(char), Str(String), Bytes(Vec<u8>) }
macro_rules! own { ($me:expr, $l:ident => $e:expr) => { match $me { Own::Bool($l) => $e, Own::Byte($l) => $e, Own::Int($l) => $e, Own::Uint($l) => $e, Own::Float($l) => $e, Own::Char($l) => $e, Own::Str($l) => $e, Own::Bytes($l) => $e } } }
macro_rules! syn_ { ($me:expr, $l:ident => $e:expr) => { match $me { Syn::Bool($l) => $e, Syn::Byte($l) => $e, Syn::Num($l) => $e, Syn::Float($l) => $e, Syn::Char($l) => $e, Syn::Str($l) => $e, Syn::Bytes($l) => $e } } }
macro_rules! raw { ($me:expr, $l:ident => $e:expr) => { match $me { Raw::Bool($l) => $e, Raw::Byte($l) => $e, Raw::Int($l) => $e, Raw::Uint($l) => $e, Raw::Float($l) => $e, Raw::Char($l) => $e, Raw::Str($l) => $e, Raw::Bytes($l) => $e } } }

#[derive(Clone)]
enum Val { P(Own), L(Lit), S(Syn), SL(syn::Lit), TT(TokenTree), TS(TokenStream), RAW(Raw), CI(Ci), W(Word), ID(PIdent), KFoo(kw::Foo), KIf(kw::If), PR(Any<Word>),
           Par(Box<Paren<Val>>), Sq(Box<Bracket<Val>>), Cu(Box<Brace<Val>>) }
impl ToTokens for Val {
    fn to_tokens(&self, t: &mut TokenStream) {
        match self {
            Val::P(l) => own!(l, x => x.to_tokens(t)), Val::L(l) => l.to_tokens(t), Val::S(l) => syn_!(l, x => x.to_tokens(t)), Val::SL(l) => l.to_tokens(t),
            Val::TT(x) => x.to_tokens(t), Val::TS(x) => x.to_tokens(t), Val::RAW(_) => {} Val::PR(x) => x.to_tokens(t),
            Val::CI(x) => x.to_tokens(t), Val::W(x) => x.to_tokens(t), Val::ID(x) => x.to_tokens(t), Val::KFoo(x) => x.to_tokens(t), Val::KIf(x) => x.to_tokens(t),
            Val::Par(x) => x.to_tokens(t), Val::Sq(x) => x.to_tokens(t), Val::Cu(x) => x.to_tokens(t),
        }
    }
}
type Step = std::result::Result<Val, Error>;
struct Ctx { locs: Vec<Span> }
impl Ctx {
    fn new() -> Self {
        let text = "a\n  bb\n     ccc\n\n dddd";
        let spans: Vec<Span> = text.parse::<TokenStream>().unwrap().into_iter().map(|t| t.span()).collect();
        let both = spans[0].join(spans[1]).unwrap();
        Ctx { locs: std::iter::once(Span::call_site()).chain(spans).chain(Some(both)).collect() }
    }
    fn id(&self, s: Span) -> i32 { self.locs.iter().position(|x| span4(*x) == span4(s)).map_or(-2, |i| i as i32) }
}
fn start(v: &str, s: Span) -> Val {
    let (k, t) = v.split_once(':').unwrap();
    match k {
        "bool" => Val::P(Own::Bool(LitBool::new(t == "true", s))),
        "byte" => Val::P(Own::Byte(LitByte::new(t.parse().unwrap(), s))),
        "int" => Val::P(Own::Int(LitInt::new(t.parse().unwrap(), s))),
        "uint" => Val::P(Own::Uint(LitUint::new(t.parse().unwrap(), s))),
        "float" => { let mut l = LitFloat::try_from(t.parse::<f64>().unwrap()).unwrap(); l.set_span(s); Val::P(Own::Float(l)) }
        "char" => Val::P(Own::Char(LitChar::new(char::from_u32(t.parse().unwrap()).unwrap(), s))),
        "str" => Val::P(Own::Str(LitStr::new(unhex(t), s))),
        "bytes" => Val::P(Own::Bytes(LitByteStr::new(unhex(t).into_bytes(), s))),
        "word" => Val::W(match t.strip_prefix("r#") { Some(r) => Word::try_from(PIdent::new_raw(r, s)).unwrap(), None => Word::new(t, s) }),
        "pair" => Val::PR(vec![Word::new("x", s), Word::new(t, s)].into()),
        _ => unreachable!()
    }
}
fn parsed(t: &TokenStream, a: &str) -> Step {
    let t = t.clone();
    Ok(match a {
        "bool" => Val::P(Own::Bool(parsel::parse2(t)?)), "byte" => Val::P(Own::Byte(parsel::parse2(t)?)), "int" => Val::P(Own::Int(parsel::parse2(t)?)),
        "uint" => Val::P(Own::Uint(parsel::parse2(t)?)), "float" => Val::P(Own::Float(parsel::parse2(t)?)), "char" => Val::P(Own::Char(parsel::parse2(t)?)),
        "str" => Val::P(Own::Str(parsel::parse2(t)?)), "bytes" => Val::P(Own::Bytes(parsel::parse2(t)?)),
        "L" => Val::L(parsel::parse2(t)?), "SL" => Val::SL(parsel::parse2(t)?), "CI" => Val::CI(parsel::parse2(t)?), "W" => Val::W(parsel::parse2(t)?),
        "foo" => Val::KFoo(parsel::parse2(t)?), "if" => Val::KIf(parsel::parse2(t)?),
        _ => unreachable!()
    })
}
fn step(val: Val, o: &str, a: &str, s: Span) -> Step {
    use Val::*;
    Ok(match (o, val) {
        ("clone", v) => v.clone(),
        ("set", mut v) => { setspan(&mut v, s); v }
        ("new", P(l)) => P(match l { Own::Bool(l) => Own::Bool(LitBool::new(l.value(), s)), Own::Byte(l) => Own::Byte(LitByte::new(l.value(), s)), Own::Int(l) => Own::Int(LitInt::new(l.value(), s)),
            Own::Uint(l) => Own::Uint(LitUint::new(l.value(), s)), Own::Float(l) => Own::Float(LitFloat::new(l.value(), s)), Own::Char(l) => Own::Char(LitChar::new(l.value(), s)),
            Own::Str(l) => Own::Str(LitStr::new(l.value(), s)), Own::Bytes(l) => Own::Bytes(LitByteStr::new(l.value(), s)) }),
        ("new", W(w)) => W(Word::new(&w.to_string(), s)),
        ("new", KFoo(_)) => KFoo(kw::Foo::new(s)), ("new", KIf(_)) => KIf(kw::If::new(s)),
        ("dflt", KFoo(_)) => KFoo(Default::default()), ("dflt", KIf(_)) => KIf(Default::default()),
        ("raw", P(l)) => RAW(match l { Own::Bool(l) => Raw::Bool(l.into()), Own::Byte(l) => Raw::Byte(l.into_inner()), Own::Int(l) => Raw::Int(l.into()), Own::Uint(l) => Raw::Uint(l.into_inner()),
            Own::Float(l) => Raw::Float(l.into()), Own::Char(l) => Raw::Char(l.into_inner()), Own::Str(l) => Raw::Str(l.into()), Own::Bytes(l) => Raw::Bytes(l.into()) }),
        ("from", RAW(r)) => P(match r { Raw::Bool(x) => Own::Bool(x.into()), Raw::Byte(x) => Own::Byte(x.into()), Raw::Int(x) => Own::Int(x.into()), Raw::Uint(x) => Own::Uint(x.into()),
            Raw::Float(x) => Own::Float(x.into()), Raw::Char(x) => Own::Char(x.into()), Raw::Str(x) => Own::Str(x.into()), Raw::Bytes(x) => Own::Bytes(x.into()) }),
        ("lit", P(l)) => L(own!(l, x => x.into())),
        ("lit", RAW(r)) => L(raw!(r, x => x.into())),
        ("unlit", L(l)) => P(match l { Lit::Bool(l) => Own::Bool(l), Lit::Byte(l) => Own::Byte(l), Lit::Int(l) => Own::Int(l), Lit::Uint(l) => Own::Uint(l), Lit::Float(l) => Own::Float(l),
            Lit::Char(l) => Own::Char(l), Lit::Str(l) => Own::Str(l), Lit::ByteStr(l) => Own::Bytes(l) }),
        ("syn", P(l)) => S(match l { Own::Bool(l) => Syn::Bool(l.into()), Own::Byte(l) => Syn::Byte(l.into()), Own::Int(l) => Syn::Num(l.into()), Own::Uint(l) => Syn::Num(l.into()),
            Own::Float(l) => Syn::Float(l.into()), Own::Char(l) => Syn::Char(l.into()), Own::Str(l) => Syn::Str(l.into()), Own::Bytes(l) => Syn::Bytes(l.into()) }),
        ("syn", L(l)) => SL(l.into()),
        ("own", S(l)) => P(match (a, l) { ("int", Syn::Num(l)) => Own::Int(LitInt::try_from(l)?), ("uint", Syn::Num(l)) => Own::Uint(LitUint::try_from(l)?), (_, Syn::Float(l)) => Own::Float(LitFloat::try_from(l)?),
            (_, Syn::Bool(l)) => Own::Bool(l.into()), (_, Syn::Byte(l)) => Own::Byte(l.into()), (_, Syn::Char(l)) => Own::Char(l.into()), (_, Syn::Str(l)) => Own::Str(l.into()), (_, Syn::Bytes(l)) => Own::Bytes(l.into()), _ => unreachable!() }),
        ("any", SL(l)) => L(Lit::try_from(l)?),
        ("up", S(l)) => SL(match l { Syn::Bool(l) => syn::Lit::Bool(l), Syn::Byte(l) => syn::Lit::Byte(l), Syn::Num(l) => syn::Lit::Int(l), Syn::Float(l) => syn::Lit::Float(l), Syn::Char(l) => syn::Lit::Char(l),
            Syn::Str(l) => syn::Lit::Str(l), Syn::Bytes(l) => syn::Lit::ByteStr(l) }),
        ("down", SL(l)) => S(match l { syn::Lit::Bool(l) => Syn::Bool(l), syn::Lit::Byte(l) => Syn::Byte(l), syn::Lit::Int(l) => Syn::Num(l), syn::Lit::Float(l) => Syn::Float(l), syn::Lit::Char(l) => Syn::Char(l),
            syn::Lit::Str(l) => Syn::Str(l), syn::Lit::ByteStr(l) => Syn::Bytes(l), _ => unreachable!() }),
        ("token", P(l)) => TT(own!(l, x => x.token().into())),
        ("token", CI(x)) => ID(x.token()), ("token", W(x)) => ID(x.token()), ("token", KFoo(x)) => ID(x.token()), ("token", KIf(x)) => ID(x.token()),
        ("tt", P(l)) => TT(own!(l, x => x.into())),
        ("tt", KFoo(x)) => TT(x.into()), ("tt", KIf(x)) => TT(x.into()), ("tt", ID(x)) => TT(x.into()),
        ("ts", v) => TS(v.to_token_stream()),
        ("one", TS(t)) => { let v: Vec<TokenTree> = t.into_iter().collect(); assert!(v.len() == 1); TT(v[0].clone()) }
        ("parse", TS(t)) => parsed(&t, a)?,
        ("id", CI(x)) => ID(x.into()), ("id", W(x)) => ID(x.into()), ("id", TT(TokenTree::Ident(x))) => ID(x),
        ("ci", ID(x)) => CI(Ci::try_from(x)?), ("w", ID(x)) => W(Word::try_from(x)?),
        ("grp", v) => match a { "(" => Par(Box::new(v.into())), "[" => Sq(Box::new(v.into())), _ => Cu(Box::new(v.into())) },
        ("grpat", v) => match a { "(" => Par(Box::new(Paren::new(v, s))), "[" => Sq(Box::new(Bracket::new(v, s))), _ => Cu(Box::new(Brace::new(v, s))) },
        ("regrp", Par(g)) => { let (_, v) = g.into_parts(); Par(Box::new(Paren::from((syn::token::Paren(s), v)))) }
        ("regrp", Sq(g)) => { let (_, v) = g.into_parts(); Sq(Box::new(Bracket::from((syn::token::Bracket(s), v)))) }
        ("regrp", Cu(g)) => { let (_, v) = g.into_parts(); Cu(Box::new(Brace::from((syn::token::Brace(s), v)))) }
        ("ungrp", Par(g)) => g.into_inner(), ("ungrp", Sq(g)) => g.into_inner(), ("ungrp", Cu(g)) => g.into_inner(),
        ("iset", Par(mut g)) => { setspan(g.as_mut().as_mut(), s); Par(g) }
        ("iset", Sq(mut g)) => { setspan(&mut **g, s); Sq(g) }
        ("iset", Cu(mut g)) => { setspan(g.as_mut().as_mut(), s); Cu(g) }
        (o, _) => panic!("{o} is not possible here"),
    })
}
fn setspan(v: &mut Val, s: Span) {
    match v {
        Val::P(l) => own!(l, x => x.set_span(s)), Val::L(l) => l.set_span(s), Val::SL(l) => l.set_span(s), Val::TT(l) => l.set_span(s),
        Val::S(l) => match l { Syn::Bool(l) => l.span = s, Syn::Byte(l) => l.set_span(s), Syn::Num(l) => l.set_span(s), Syn::Float(l) => l.set_span(s), Syn::Char(l) => l.set_span(s), Syn::Str(l) => l.set_span(s), Syn::Bytes(l) => l.set_span(s) },
        Val::CI(x) => x.set_span(s), Val::W(x) => x.set_span(s), Val::ID(x) => x.set_span(s), Val::KFoo(x) => x.set_span(s), Val::KIf(x) => x.set_span(s),
        _ => panic!("not possible here"),
    }
}
fn flat(t: TokenStream, c: &Ctx, out: &mut Vec<String>) {
    for x in t {
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::Brace => ("{", "}"), _ => ("<", ">") };
                out.push(format!("[{},{}]", jstr(a), c.id(g.span()))); flat(g.stream(), c, out); out.push(format!("[{},{}]", jstr(b), c.id(g.span())));
            }
            x => out.push(format!("[{},{}]", jstr(&x.to_string()), c.id(x.span()))),
        }
    }
}
/// [form, kind, shown text, location, other ways to the location, groups]
fn show(v: &Val, c: &Ctx, gs: &mut Vec<String>) -> String {
    let o = |f: &str, k: &str, t: String, ls: Vec<Span>| {
        let ls: Vec<i32> = ls.into_iter().map(|s| c.id(s)).collect();
        format!("\"f\":{},\"k\":{},\"t\":{},\"ls\":{:?}", jstr(f), jstr(k), jstr(&t), ls)
    };
    macro_rules! lit { ($f:expr, $k:expr, $l:expr) => { o($f, $k, format!("{:?}", $l.value()), vec![$l.span(), Spanned::span($l), $l.token().span(), TokenTree::from($l.clone()).span()]) } }
    macro_rules! word { ($x:expr) => { vec![$x.span(), $x.token().span(), PIdent::from($x.clone()).span(), Spanned::span($x)] } }
    match v {
        Val::P(l) => match l { Own::Bool(l) => lit!("P", "bool", l), Own::Byte(l) => lit!("P", "byte", l), Own::Int(l) => lit!("P", "int", l), Own::Uint(l) => lit!("P", "uint", l),
            Own::Float(l) => o("P", "float", format!("{:?}", l.value().into_inner()), vec![l.span(), Spanned::span(l), l.token().span(), TokenTree::from(*l).span()]),
            Own::Char(l) => lit!("P", "char", l), Own::Str(l) => lit!("P", "str", l), Own::Bytes(l) => lit!("P", "bytes", l) },
        Val::L(l) => match l { 
            Lit::Bool(x) => o("L", "bool", format!("{:?}", x.value()), vec![l.span(), x.span()]), Lit::Byte(x) => o("L", "byte", format!("{:?}", x.value()), vec![l.span(), x.span()]),
            Lit::Int(x) => o("L", "int", format!("{:?}", x.value()), vec![l.span(), x.span()]), Lit::Uint(x) => o("L", "uint", format!("{:?}", x.value()), vec![l.span(), x.span()]),
            Lit::Float(x) => o("L", "float", format!("{:?}", x.value().into_inner()), vec![l.span(), x.span()]), Lit::Char(x) => o("L", "char", format!("{:?}", x.value()), vec![l.span(), x.span()]),
            Lit::Str(x) => o("L", "str", format!("{:?}", x.value()), vec![l.span(), x.span()]), Lit::ByteStr(x) => o("L", "bytes", format!("{:?}", x.value()), vec![l.span(), x.span()]) },
        Val::S(l) => match l { Syn::Bool(l) => o("S", "bool", format!("{:?}", l.value), vec![l.span]), Syn::Byte(l) => o("S", "byte", format!("{:?}", l.value()), vec![l.span()]),
            Syn::Num(l) => o("S", "num", l.base10_digits().to_string(), vec![l.span()]), Syn::Float(l) => o("S", "float", format!("{:?}", l.base10_parse::<f64>().unwrap()), vec![l.span()]),
            Syn::Char(l) => o("S", "char", format!("{:?}", l.value()), vec![l.span()]), Syn::Str(l) => o("S", "str", format!("{:?}", l.value()), vec![l.span()]), Syn::Bytes(l) => o("S", "bytes", format!("{:?}", l.value()), vec![l.span()]) },
        Val::SL(l) => match l { syn::Lit::Bool(x) => o("SL", "bool", format!("{:?}", x.value), vec![l.span()]), syn::Lit::Byte(x) => o("SL", "byte", format!("{:?}", x.value()), vec![l.span()]),
            syn::Lit::Int(x) => o("SL", "num", x.base10_digits().to_string(), vec![l.span()]), syn::Lit::Float(x) => o("SL", "float", format!("{:?}", x.base10_parse::<f64>().unwrap()), vec![l.span()]),
            syn::Lit::Char(x) => o("SL", "char", format!("{:?}", x.value()), vec![l.span()]), syn::Lit::Str(x) => o("SL", "str", format!("{:?}", x.value()), vec![l.span()]),
            syn::Lit::ByteStr(x) => o("SL", "bytes", format!("{:?}", x.value()), vec![l.span()]), _ => o("SL", "?", String::new(), vec![l.span()]) },
        Val::TT(t) => o("TT", "", String::new(), vec![t.span()]),
        Val::TS(t) => o("TS", "", String::new(), t.clone().into_iter().map(|t| t.span()).collect()),
        Val::PR(t) => o("PR", "pair", t.iter().map(|w| w.to_string()).collect::<Vec<_>>().join(" "), vec![Spanned::span(t)]),
        Val::RAW(r) => match r { Raw::Bool(x) => o("RAW", "bool", format!("{x:?}"), vec![]), Raw::Byte(x) => o("RAW", "byte", format!("{x:?}"), vec![]), Raw::Int(x) => o("RAW", "int", format!("{x:?}"), vec![]),
            Raw::Uint(x) => o("RAW", "uint", format!("{x:?}"), vec![]), Raw::Float(x) => o("RAW", "float", format!("{:?}", x.into_inner()), vec![]), Raw::Char(x) => o("RAW", "char", format!("{x:?}"), vec![]),
            Raw::Str(x) => o("RAW", "str", format!("{x:?}"), vec![]), Raw::Bytes(x) => o("RAW", "bytes", format!("{x:?}"), vec![]) },
        Val::CI(x) => o("CI", "word", x.to_string(), word!(x)), 
        Val::W(x) => o("W", "word", x.to_string(), word!(x)),
        Val::ID(x) => o("ID", "word", x.to_string(), vec![x.span()]),
        Val::KFoo(x) => o("KW", "word", x.to_string(), vec![x.span(), x.token().span(), TokenTree::from(*x).span(), Spanned::span(x)]),
        Val::KIf(x) => o("KW", "word", x.to_string(), vec![x.span(), x.token().span(), TokenTree::from(*x).span(), Spanned::span(x)]),
        Val::Par(g) => { let r = show(g.as_parts().1, c, gs); gs.push(format!("[\"(\",{},{}]", c.id(g.as_parens().span.join()), c.id((**g).clone().into_parens().span.join()))); r }
        Val::Sq(g) => { let r = show(g.as_parts().1, c, gs); gs.push(format!("[\"[\",{},{}]", c.id(g.as_brackets().span.join()), c.id(g.clone().into_parts().0.span.join()))); r }
        Val::Cu(g) => { let r = show(&***g, c, gs); gs.push(format!("[\"{{\",{},{}]", c.id(g.as_parts().0.span.join()), c.id((**g).clone().into_braces().span.join()))); r }
    }
}
fn obs(v: &Val, c: &Ctx) -> String {
    let mut gs = vec![]; let s = show(v, c, &mut gs);
    let mut toks = vec![]; flat(v.to_token_stream(), c, &mut toks);
    let sp = match v { Val::RAW(_) => -1, v => c.id(Spanned::span(v)) };
    format!("{{{},\"gs\":[{}],\"toks\":[{}],\"sp\":{}}}", s, gs.join(","), toks.join(","), sp)
}
fn history(f: &[&str]) -> String {
    let c = Ctx::new();
    let all = f.len() > 2 && f[2] == "all";
    let mut v = match f[3] {
        "away" => match start(f[0], c.locs[1]) {
            // the same tokens, at the first two places
            v @ (Val::P(_) | Val::PR(_)) => {
                let ts: TokenStream = v.to_token_stream().into_iter().zip(1..).map(|(mut t, i)| { t.set_span(c.locs[i]); t }).collect();
                if let Val::PR(_) = v { Val::PR(parsel::parse2(ts).unwrap()) } else { Val::TS(ts) }
            }
            _ => unreachable!(),
        },
        _ => start(f[0], c.locs[1]),
    };
    let mut out = vec![];
    let ops: Vec<&str> = f[1].split(';').filter(|s| !s.is_empty()).collect();
    for (i, o) in ops.iter().enumerate() {
        let p: Vec<&str> = o.split(',').collect();
        let before = v.clone();
        let (ok, at) = match step(v, p[0], p[1], c.locs[p[2].parse::<usize>().unwrap()]) {
            Ok(x) => { v = x; (true, 0) }
            Err(e) => { v = before; (false, c.id(e.span())) }
        };
        if all || i + 1 == ops.len() { out.push(format!("{{\"ok\":{},\"at\":{},\"obs\":{}}}", ok, at, obs(&v, &c))); }
    }
    format!("{{\"r\":\"ok\",\"steps\":[{}]}}", out.join(","))
}
fn main() { serve(history) }
