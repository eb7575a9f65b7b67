#![allow(dead_code, unused_imports, unused_mut)]
use harness::*;
use std::borrow::{Borrow, Cow};
use std::convert::TryFrom;
use std::fmt::Write as _;
use parsel::ast::*;
use parsel::ast::Lit;
use parsel::{syn, Parse, ToTokens, Spanned, TokenTree, TokenStream, Span};
use parsel::NotNan;

/// a value, spelled out: numbers in decimal, floats by their bits, texts by the numbers of their characters
fn seq<T: Copy + Into<u32>>(x: impl Iterator<Item = T>) -> String { x.map(|c| { let n: u32 = c.into(); n.to_string() }).collect::<Vec<_>>().join(",") }
fn vbool(b: bool) -> String { (b as u8).to_string() }
fn vf(x: f64) -> String { format!("{:016x}", x.to_bits()) }
fn vs(s: &str) -> String { seq(s.chars()) }
fn vb(s: &[u8]) -> String { seq(s.iter().copied()) }
fn nums(s: &str) -> Vec<u32> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
fn text(s: &str) -> String { nums(s).into_iter().map(|n| char::from_u32(n).unwrap()).collect() }
fn bytes(s: &str) -> Vec<u8> { nums(s).into_iter().map(|n| n as u8).collect() }

type Ways = Vec<(&'static str, String, Option<Span>)>;
trait One: Parse + ToTokens + std::fmt::Display + std::str::FromStr<Err = parsel::Error> + Clone + PartialEq {
    fn ways(&self) -> Ways;
    fn make(v: &str, s: Span) -> Self;
    fn at(&self) -> Span;
    fn to(&mut self, s: Span);
    /// the value in all the ways in which it is printed
    fn texts(&self) -> Vec<String>;
    fn value_of(&self) -> String;
}
macro_rules! common { ($t:ty, $raw:ty, $v:expr, $un:expr, $more:expr) => {
    impl One for $t {
        fn at(&self) -> Span { self.span() }
        fn to(&mut self, s: Span) { self.set_span(s) }
        fn value_of(&self) -> String { let v: fn(&$raw) -> String = $v; v(&self.value()) }
        fn make(s: &str, sp: Span) -> Self { let un: fn(&str) -> $raw = $un; <$t>::new(un(s), sp) }
        fn ways(&self) -> Ways {
            let v: fn(&$raw) -> String = $v;
            let mut o: Ways = vec![
                ("value", v(&self.value()), Some(self.span())),
                ("into_inner", v(&self.clone().into_inner()), Some(Spanned::span(self))),
                ("into", v(&<$raw>::from(self.clone())), None),
                ("borrow", v(<$t as Borrow<$raw>>::borrow(self)), None),
                ("from", v(&<$t>::from(self.value()).value()), None),
                ("new", v(&<$t>::new(self.value(), self.span()).value()), Some(<$t>::new(self.value(), self.span()).span())),
                ("token", v(&self.value()), Some(self.token().span())),
                ("TokenTree", v(&self.value()), Some(TokenTree::from(self.clone()).span())),
                ("Lit", v(&self.value()), Some(Lit::from(self.clone()).span())),
            ];
            let ts: Vec<TokenTree> = self.to_token_stream().into_iter().collect();
            if ts.len() == 1 { o.push(("to_tokens", v(&self.value()), Some(ts[0].span()))) }
            let more: fn(&$t, &mut Ways) = $more; more(self, &mut o);
            o
        }
        fn texts(&self) -> Vec<String> {
            let mut o = vec![self.to_string(), format!("{:#}", self), self.token().to_string(), self.to_token_stream().to_string(),
                 TokenTree::from(self.clone()).to_string(), Lit::from(self.clone()).to_string(), Lit::from(self.clone()).to_token_stream().to_string(),
                 syn::Lit::from(Lit::from(self.clone())).to_token_stream().to_string()];
            o.dedup();
            o
        }
    }
}}
common!(LitBool, bool, |b| vbool(*b), |s| s == "1", |t, o| {
    let s = syn::LitBool::from(t.clone()); o.push(("syn", vbool(s.value), Some(s.span)));
    let u = LitBool::from(s); o.push(("back", vbool(u.value()), Some(u.span())));
    o.push(("Lit::from", match Lit::from(t.value()) { Lit::Bool(x) => vbool(x.value()), _ => "?".into() }, None));
});
common!(LitByte, u8, |b| b.to_string(), |s| s.parse().unwrap(), |t, o| {
    let s = syn::LitByte::from(t.clone()); o.push(("syn", s.value().to_string(), Some(s.span())));
    let u = LitByte::from(s); o.push(("back", u.value().to_string(), Some(u.span())));
    o.push(("Lit::from", match Lit::from(t.value()) { Lit::Byte(x) => x.value().to_string(), _ => "?".into() }, None));
});
common!(LitInt, i64, |b| b.to_string(), |s| s.parse().unwrap(), |t, o| {
    let s = syn::LitInt::from(t.clone()); o.push(("syn", s.base10_parse::<i128>().unwrap().to_string(), Some(s.span())));
    match LitInt::try_from(s) { Ok(u) => o.push(("back", u.value().to_string(), Some(u.span()))), Err(e) => o.push(("back", e.to_string(), None)) }
    o.push(("Lit::from", match Lit::from(t.value()) { Lit::Int(x) => x.value().to_string(), _ => "?".into() }, None));
});
common!(LitUint, u64, |b| b.to_string(), |s| s.parse().unwrap(), |t, o| {
    let s = syn::LitInt::from(t.clone()); o.push(("syn", s.base10_parse::<i128>().unwrap().to_string(), Some(s.span())));
    match LitUint::try_from(s) { Ok(u) => o.push(("back", u.value().to_string(), Some(u.span()))), Err(e) => o.push(("back", e.to_string(), None)) }
    o.push(("Lit::from", match Lit::from(t.value()) { Lit::Uint(x) => x.value().to_string(), _ => "?".into() }, None));
});
common!(LitFloat, NotNan<f64>, |b| vf(b.into_inner()), |s| NotNan::new(f64::from_bits(u64::from_str_radix(s, 16).unwrap())).unwrap(), |t, o| {
    let s = syn::LitFloat::from(t.clone()); o.push(("syn", vf(s.base10_parse::<f64>().unwrap()), Some(s.span())));
    match LitFloat::try_from(s) { Ok(u) => o.push(("back", vf(u.value().into_inner()), Some(u.span()))), Err(e) => o.push(("back", e.to_string(), None)) }
    o.push(("f64", vf(f64::from(t.clone())), None));
    o.push(("try_from", LitFloat::try_from(t.value().into_inner()).map_or("nan".into(), |x| vf(x.value().into_inner())), None));
    o.push(("Lit::from", match Lit::from(t.value()) { Lit::Float(x) => vf(x.value().into_inner()), _ => "?".into() }, None));
    o.push(("Lit::try_from", match Lit::try_from(t.value().into_inner()) { Ok(Lit::Float(x)) => vf(x.value().into_inner()), _ => "?".into() }, None));
    if LitFloat::try_from(f64::NAN).is_ok() || Lit::try_from(f64::NAN).is_ok() { o.push(("NaN", "accepted".into(), None)) }
});
common!(LitChar, char, |b| (*b as u32).to_string(), |s| char::from_u32(s.parse().unwrap()).unwrap(), |t, o| {
    let s = syn::LitChar::from(t.clone()); o.push(("syn", (s.value() as u32).to_string(), Some(s.span())));
    let u = LitChar::from(s); o.push(("back", (u.value() as u32).to_string(), Some(u.span())));
    o.push(("Lit::from", match Lit::from(t.value()) { Lit::Char(x) => (x.value() as u32).to_string(), _ => "?".into() }, None));
});
common!(LitStr, String, |b| vs(b), |s| text(s), |t, o| {
    let s = syn::LitStr::from(t.clone()); o.push(("syn", vs(&s.value()), Some(s.span())));
    let u = LitStr::from(s); o.push(("back", vs(&u.value()), Some(u.span())));
    o.push(("AsRef", vs(AsRef::<str>::as_ref(t)), None)); o.push(("Deref", vs(t), None)); o.push(("Borrow<str>", vs(Borrow::<str>::borrow(t)), None));
    o.push(("Box", vs(&Box::<str>::from(t.clone())), None)); o.push(("Cow", vs(&Cow::<str>::from(t.clone())), None));
    let x = t.value();
    o.push(("from &str", vs(&LitStr::from(&x[..]).value()), None)); o.push(("from Box", vs(&LitStr::from(x.clone().into_boxed_str()).value()), None));
    o.push(("from Cow", vs(&LitStr::from(Cow::Borrowed(&x[..])).value()), None));
    for l in [Lit::from(x.clone()), Lit::from(&x[..]), Lit::from(x.clone().into_boxed_str()), Lit::from(Cow::Borrowed(&x[..]))] {
        o.push(("Lit::from", match l { Lit::Str(x) => vs(&x.value()), _ => "?".into() }, None));
    }
});
common!(LitByteStr, Vec<u8>, |b| vb(b), |s| bytes(s), |t, o| {
    let s = syn::LitByteStr::from(t.clone()); o.push(("syn", vb(&s.value()), Some(s.span())));
    let u = LitByteStr::from(s); o.push(("back", vb(&u.value()), Some(u.span())));
    o.push(("AsRef", vb(AsRef::<[u8]>::as_ref(t)), None)); o.push(("Deref", vb(t), None)); o.push(("Borrow<[u8]>", vb(Borrow::<[u8]>::borrow(t)), None));
    o.push(("Box", vb(&Box::<[u8]>::from(t.clone())), None)); o.push(("Cow", vb(&Cow::<[u8]>::from(t.clone())), None));
    let x = t.value();
    o.push(("from &[u8]", vb(&LitByteStr::from(&x[..]).value()), None)); o.push(("from Box", vb(&LitByteStr::from(x.clone().into_boxed_slice()).value()), None));
    o.push(("from Cow", vb(&LitByteStr::from(Cow::Borrowed(&x[..])).value()), None));
    let mut m = t.clone(); o.push(("AsMut", vb(AsMut::<[u8]>::as_mut(&mut m)), None)); o.push(("DerefMut", vb(&mut m[..]), None));
    o.push(("BorrowMut", vb(std::borrow::BorrowMut::<[u8]>::borrow_mut(&mut m)), None));
    for l in [Lit::from(x.clone()), Lit::from(&x[..]), Lit::from(x.clone().into_boxed_slice()), Lit::from(Cow::Borrowed(&x[..]))] {
        o.push(("Lit::from", match l { Lit::ByteStr(x) => vb(&x.value()), _ => "?".into() }, None));
    }
});
fn split(l: &Lit) -> (&'static str, String) {
    match l {
        Lit::Bool(x) => ("Bool", x.value_of()), Lit::Byte(x) => ("Byte", x.value_of()), Lit::Int(x) => ("Int", x.value_of()), Lit::Uint(x) => ("Uint", x.value_of()),
        Lit::Float(x) => ("Float", x.value_of()), Lit::Char(x) => ("Char", x.value_of()), Lit::Str(x) => ("Str", x.value_of()), Lit::ByteStr(x) => ("ByteStr", x.value_of()),
    }
}
fn tagged(l: &Lit) -> String { let (a, b) = split(l); format!("{}:{}", a, b) }
impl One for Lit {
    fn at(&self) -> Span { self.span() }
    fn to(&mut self, s: Span) { self.set_span(s) }
    fn value_of(&self) -> String { tagged(self) }
    fn make(_: &str, _: Span) -> Self { unreachable!() }
    fn ways(&self) -> Ways {
        let mut o: Ways = vec![("value", tagged(self), Some(self.span())), ("Spanned", tagged(self), Some(Spanned::span(self)))];
        let inner = match self.clone() {
            Lit::Bool(x) => x.at(), Lit::Byte(x) => x.at(), Lit::Int(x) => x.at(), Lit::Uint(x) => x.at(),
            Lit::Float(x) => x.at(), Lit::Char(x) => x.at(), Lit::Str(x) => x.at(), Lit::ByteStr(x) => x.at(),
        };
        o.push(("inner", tagged(self), Some(inner)));
        let s = syn::Lit::from(self.clone()); o.push(("syn", tagged(self), Some(s.span())));
        match Lit::try_from(s) { Ok(u) => o.push(("back", tagged(&u), Some(u.span()))), Err(e) => o.push(("back", e.to_string(), None)) }
        let ts: Vec<TokenTree> = self.to_token_stream().into_iter().collect();
        if ts.len() == 1 { o.push(("to_tokens", tagged(self), Some(ts[0].span()))) }
        o
    }
    fn texts(&self) -> Vec<String> { let mut o = vec![self.to_string(), format!("{:#}", self), self.to_token_stream().to_string()]; o.dedup(); o }
}
fn ways_json(w: Ways) -> String {
    w.into_iter().map(|(n, v, s)| format!("[{},{},[{}]]", jstr(n), jstr(&v), s.map_or(String::new(), span4))).collect::<Vec<_>>().join(",")
}
fn read<T: One>(text: &str) -> String {
    let routes: Vec<(&str, Result<T, parsel::Error>)> = vec![
        ("parse_str", parsel::parse_str(text)), ("FromStr", text.parse()),
        ("parse2", text.parse::<TokenStream>().map_err(Into::into).and_then(parsel::parse2))];
    let mut o = String::from("{\"r\":\"ok\",\"by\":[");
    let mut ok = None;
    for (k, (n, r)) in routes.into_iter().enumerate() {
        if k > 0 { o.push(',') }
        match r {
            Err(e) => { let _ = write!(o, "{{\"by\":{},\"ok\":false,\"at\":[{}]}}", jstr(n), span4(e.span())); }
            Ok(t) => { let _ = write!(o, "{{\"by\":{},\"ok\":true,\"v\":{},\"at\":[{}]}}", jstr(n), jstr(&t.value_of()), span4(t.at())); ok = Some(t); }
        }
    }
    o.push(']');
    if let Some(t) = ok {
        let _ = write!(o, ",\"ways\":[{}]", ways_json(t.ways()));
        let far: Ident = parsel::parse_str("\n\n\n      away").unwrap();
        let mut u = t.clone(); u.to(far.span());
        let there = span4(u.at()) == span4(far.span()) && u.ways().iter().all(|(n, v, s)| s.map_or(true, |s| span4(s) == span4(far.span())) && t.ways().iter().any(|(m, w, _)| m == n && w == v));
        let _ = write!(o, ",\"moved\":{}", there && u == t && u.value_of() == t.value_of());
        let _ = write!(o, ",\"texts\":[{}]", t.texts().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    }
    o.push('}');
    o
}
fn print<T: One>(v: &str) -> String {
    let here: Ident = parsel::parse_str("\n    heeeere").unwrap();
    let t = T::make(v, here.span());
    let texts = t.texts();
    let back: Vec<bool> = texts.iter().map(|s| s.parse::<T>().map_or(false, |u| u == t && u.value_of() == t.value_of())).collect();
    let toks = parsel::parse2::<T>(t.to_token_stream()).map_or(false, |u| u == t && u.value_of() == t.value_of() && span4(u.at()) == span4(here.span()));
    let at = t.to_token_stream().into_iter().all(|x| span4(x.span()) == span4(here.span()));
    format!("{{\"r\":\"ok\",\"texts\":[{}],\"back\":{},\"toks\":{},\"at\":{},\"ways\":[{}],\"here\":[{}]}}", texts.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        back.iter().all(|x| *x), toks, at, ways_json(t.ways()), span4(here.span()))
}
/// all characters of a range, by the manner in which they are printed
fn runs(ctx: &str, lo: u32, hi: u32, step: u32) -> String {
    let mut out: Vec<(String, u32, u32)> = vec![];
    let mut wrong = String::new();
    let mut put = |form: String, c: u32| match out.last_mut() {
        Some((f, _, h)) if *f == form && (form == "plain" || form == "unicode") => *h = c,
        _ => out.push((form, c, c)),
    };
    let q = if ctx == "char" { '\'' } else { '"' };
    for n in lo..=hi {
        let c = match char::from_u32(n) { Some(c) => c, None => continue };
        let s = if ctx == "char" { LitChar::from(c).to_string() } else { LitStr::from(&c.to_string()[..]).to_string() };
        let form = if s.chars().eq([q, c, q]) { "plain".to_string() } else if s == format!("{q}\\u{{{:x}}}{q}", n) { "unicode".to_string() } else { s.clone() };
        put(form, n);
        if n % step == lo % step || n < 0x3000 {
            let same = if ctx == "char" { s.parse::<LitChar>().map_or(false, |x| x.value() == c) && s.parse::<Lit>().map_or(false, |x| x == Lit::from(c)) }
                       else { s.parse::<LitStr>().map_or(false, |x| x.value().chars().eq([c])) && s.parse::<Lit>().map_or(false, |x| x == Lit::from(c.to_string())) };
            if !same && wrong.is_empty() { wrong = format!("{:x} printed as {}", n, s) }
        }
    }
    format!("{{\"r\":\"ok\",\"wrong\":{},\"runs\":[{}]}}", jstr(&wrong), out.iter().map(|(f, a, b)| format!("[{},{},{}]", jstr(f), a, b)).collect::<Vec<_>>().join(","))
}
fn many(text: &str) -> String {
    match parsel::parse_str::<Many<Lit>>(text) {
        Err(e) => format!("{{\"r\":\"ok\",\"ok\":false,\"at\":[{}]}}", span4(e.span())),
        Ok(v) => {
            let back = |s: String| parsel::parse_str::<Many<Lit>>(&s).map_or(false, |u| u == v);
            format!("{{\"r\":\"ok\",\"ok\":true,\"back\":{},\"items\":[{}]}}",
                back(v.to_string()) && back(format!("{:#}", v)) && parsel::parse2::<Many<Lit>>(v.to_token_stream()).map_or(false, |u| u == v),
                v.iter().map(|l| { let (a, b) = split(l); format!("[{},{},{}]", jstr(a), jstr(&b), span4(l.span())) }).collect::<Vec<_>>().join(","))
        }
    }
}
fn dispatch(f: &[&str]) -> String {
    macro_rules! each { ($g:ident, $x:expr) => { match f[1] {
        "Bool" => $g::<LitBool>($x), "Byte" => $g::<LitByte>($x), "Int" => $g::<LitInt>($x), "Uint" => $g::<LitUint>($x), "Float" => $g::<LitFloat>($x),
        "Char" => $g::<LitChar>($x), "Str" => $g::<LitStr>($x), "ByteStr" => $g::<LitByteStr>($x), _ => $g::<Lit>($x) } } }
    match f[0] {
        "T" => each!(read, &unhex(f[2])),
        "V" => each!(print, f[2]),
        "R" => runs(f[1], f[2].parse().unwrap(), f[3].parse().unwrap(), f[4].parse().unwrap()),
        "M" => many(&unhex(f[2])),
        _ => String::new(),
    }
}
fn main() { serve(dispatch) }
