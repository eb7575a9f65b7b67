//! Runs the real parsel on test vectors and reports what is observable, as JSON lines.
//!
//! A vector is one line: `<grammar index> TAB <mode letters> TAB <hex of the text>`.
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use parsel::ast::*;
use parsel::{Parse, ToTokens, Span, Spanned, TokenStream, TokenTree};
use parsel::proc_macro2::{Delimiter, Group, Punct, Spacing};

pub trait Dump {
    fn dump(&self, o: &mut String);
}

pub fn js(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (c as u32) > 0xffff => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { let _ = write!(o, "\\u{:04x}", u); }
            }
            c if (c as u32) > 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
pub fn jstr(s: &str) -> String { let mut o = String::new(); js(s, &mut o); o }
pub fn span4(s: Span) -> String {
    format!("{},{},{},{}", s.start().line, s.start().column, s.end().line, s.end().column)
}
pub fn leaf<T: ToTokens>(t: &T, o: &mut String) {
    let _ = write!(o, "[\"tok\",{}]", span4(Spanned::span(t)));
}
/// a production without tokens of its own
pub fn node(o: &mut String, kind: &str, children: &[&dyn Dump]) {
    let _ = write!(o, "[\"{}\",[", kind);
    for (i, c) in children.iter().enumerate() {
        if i > 0 { o.push(','); }
        c.dump(o);
    }
    o.push_str("]]");
}

#[macro_export]
macro_rules! leaf_impl {
    ($($t:ty;)*) => {$(
        impl $crate::Dump for $t { fn dump(&self, o: &mut String) { $crate::leaf(self, o) } }
    )*};
    ($t:ty) => { impl $crate::Dump for $t { fn dump(&self, o: &mut String) { $crate::leaf(self, o) } } };
}

/// a parser that always fails, with a message of its own
#[macro_export]
macro_rules! fail_impl { ($name:ident, $msg:expr) => {
    #[derive(Clone, PartialEq, Eq, Hash, Debug)] pub struct $name;
    impl $crate::Dump for $name { fn dump(&self, o: &mut String) { $crate::node(o, "fail", &[]) } }
    impl parsel::Parse for $name { fn parse(input: parsel::syn::parse::ParseStream<'_>) -> parsel::Result<Self> { Err(input.error($msg)) } }
    impl parsel::ToTokens for $name { fn to_tokens(&self, _: &mut parsel::TokenStream) {} }
} }

use parsel::syn::Token;
leaf_impl!{
    Token![+]; Token![-]; Token![*]; Token![/]; Token![%]; Token![^]; Token![!]; Token![&]; Token![|];
    Token![=]; Token![<]; Token![>]; Token![,]; Token![;]; Token![:]; Token![.]; Token![@]; Token![#];
    Token![?]; Token![~]; Token![$];
    Token![==]; Token![!=]; Token![<=]; Token![>=]; Token![&&]; Token![||]; Token![->]; Token![=>];
    Token![::]; Token![..]; Token![...]; Token![..=]; Token![<<]; Token![>>]; Token![<<=]; Token![>>=];
    Token![+=]; Token![-=]; Token![*=]; Token![%=]; Token![^=]; Token![&=]; Token![|=]; Token![<-];
    Token![fn]; Token![let]; Token![if]; Token![else]; Token![for]; Token![_]; Token![self]; Token![type];
    Ident;
    LitBool; LitByte; LitInt; LitUint; LitFloat; LitChar; LitStr; LitByteStr; Lit;
}
impl<K> Dump for CustomIdent<K> {
    fn dump(&self, o: &mut String) { leaf(self, o) }
}
impl<T: Dump + ?Sized> Dump for Box<T> {
    fn dump(&self, o: &mut String) { (**self).dump(o) }
}
macro_rules! mark {
    ($($t:ty => $n:expr;)*) => {$(
        impl Dump for $t { fn dump(&self, o: &mut String) { node(o, $n, &[]) } }
    )*};
}
mark!{ Empty => "empty"; Eof => "eof"; NotEof => "noteof"; }
macro_rules! delim {
    ($($t:ident, $get:ident;)*) => {$(
        impl<T: Dump> Dump for $t<T> {
            fn dump(&self, o: &mut String) {
                let sp = self.$get().span;
                let (a, b) = (sp.open().start(), sp.close().end());
                let _ = write!(o, "[\"group\",{},{},{},{},", a.line, a.column, b.line, b.column);
                (**self).dump(o);
                o.push(']');
            }
        }
    )*};
}
delim!{ Paren, as_parens; Bracket, as_brackets; Brace, as_braces; }
impl<P: Dump, T: Dump> Dump for Maybe<P, T> {
    fn dump(&self, o: &mut String) {
        match self.as_parts() {
            None => node(o, "none", &[]),
            Some((p, t)) => node(o, "some", &[p, t]),
        }
    }
}
impl<T: Dump> Dump for Any<T> {
    fn dump(&self, o: &mut String) {
        let c: Vec<&dyn Dump> = self.iter().map(|x| x as &dyn Dump).collect();
        node(o, "any", &c)
    }
}
fn pairs<'a, T: Dump, P: Dump>(ps: parsel::syn::punctuated::Pairs<'a, T, P>) -> Vec<&'a dyn Dump> {
    let mut c: Vec<&dyn Dump> = vec![];
    for p in ps {
        let (v, s) = p.into_tuple();
        c.push(v);
        if let Some(s) = s { c.push(s) }
    }
    c
}
impl<T: Dump, P: Dump> Dump for Punctuated<T, P> {
    fn dump(&self, o: &mut String) { node(o, "punct", &pairs(self.pairs())) }
}
impl<T: Dump, P: Dump> Dump for Separated<T, P> {
    fn dump(&self, o: &mut String) { node(o, "sep", &pairs(self.pairs())) }
}
impl<O: Dump, R: Dump> Dump for LeftAssoc<O, R> {
    fn dump(&self, o: &mut String) {
        match self {
            LeftAssoc::Binary { lhs, op, rhs } => node(o, "lb", &[lhs, op, rhs]),
            LeftAssoc::Rhs(x) => node(o, "lr", &[x]),
        }
    }
}
impl<O: Dump, L: Dump> Dump for RightAssoc<O, L> {
    fn dump(&self, o: &mut String) {
        match self {
            RightAssoc::Binary { lhs, op, rhs } => node(o, "rb", &[lhs, op, rhs]),
            RightAssoc::Lhs(x) => node(o, "rl", &[x]),
        }
    }
}
/// Parses an alternation directly on the input, with no branch of the input in between: where
/// the alternation fails, whatever follows sees what the alternation has left.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Attempt<X> { Got(X), Not }
impl<X: Parse> Parse for Attempt<X> {
    fn parse(input: parsel::syn::parse::ParseStream<'_>) -> parsel::Result<Self> {
        Ok(match X::parse(input) { Ok(x) => Attempt::Got(x), Err(_) => Attempt::Not })
    }
}
impl<X: ToTokens> ToTokens for Attempt<X> {
    fn to_tokens(&self, tokens: &mut parsel::TokenStream) {
        if let Attempt::Got(x) = self { x.to_tokens(tokens) }
    }
}
impl<X: Dump> Dump for Attempt<X> {
    fn dump(&self, o: &mut String) {
        match self {
            Attempt::Got(x) => node(o, "L", &[x]),
            Attempt::Not => node(o, "R", &[&Empty]),
        }
    }
}
impl<L: Dump, R: Dump> Dump for Either<L, R> {
    fn dump(&self, o: &mut String) {
        match self {
            Either::Left(x) => node(o, "L", &[x]),
            Either::Right(x) => node(o, "R", &[x]),
        }
    }
}

/// flat list of the tokens of a stream: [text, l1, c1, l2, c2], delimiters included
pub fn tokens(ts: TokenStream, o: &mut String) {
    fn go(ts: TokenStream, o: &mut String, first: &mut bool) {
        for tt in ts {
            let mut put = |s: &str, sp: Span| {
                if !*first { o.push(','); }
                *first = false;
                o.push('[');
                js(s, o);
                let _ = write!(o, ",{}]", span4(sp));
            };
            match tt {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    put(a, g.span_open());
                    go(g.stream(), o, first);
                    let mut put = |s: &str, sp: Span| {
                        if !*first { o.push(','); }
                        *first = false;
                        o.push('[');
                        js(s, o);
                        let _ = write!(o, ",{}]", span4(sp));
                    };
                    put(b, g.span_close());
                }
                TokenTree::Punct(p) => {
                    let mut s = p.as_char().to_string();
                    if p.spacing() == parsel::proc_macro2::Spacing::Joint { s.push('~'); }
                    put(&s, p.span())
                }
                other => put(&other.to_string(), other.span()),
            }
        }
    }
    o.push('[');
    let mut first = true;
    go(ts, o, &mut first);
    o.push(']');
}

/// the same tokens without source locations
pub fn unlocated(ts: TokenStream, sp: Span) -> TokenStream {
    ts.into_iter().map(|tt| match tt {
        TokenTree::Group(g) => {
            let mut n = Group::new(g.delimiter(), unlocated(g.stream(), sp));
            n.set_span(sp);
            TokenTree::Group(n)
        }
        mut t => { t.set_span(sp); t }
    }).collect()
}

/// the same tokens, with the given ranges of them (counted from 1, delimiters included) in invisible groups;
/// `joint`: punctuation that is not followed by punctuation is marked as joined, too
pub fn veiled(ts: TokenStream, veils: &[(usize, usize)], joint: bool) -> TokenStream {
    fn go(ts: TokenStream, at: &mut usize, veils: &[(usize, usize)], joint: bool) -> TokenStream {
        let mut items: Vec<(usize, usize, TokenTree)> = vec![];
        let mut ts = ts.into_iter().peekable();
        while let Some(tt) = ts.next() {
            *at += 1;
            let i = *at;
            let tt = match tt {
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), go(g.stream(), at, veils, joint));
                    n.set_span(g.span());
                    *at += 1;
                    TokenTree::Group(n)
                }
                TokenTree::Punct(p) if joint && !matches!(ts.peek(), Some(TokenTree::Punct(_))) => {
                    let mut n = Punct::new(p.as_char(), Spacing::Joint);
                    n.set_span(p.span());
                    TokenTree::Punct(n)
                }
                t => t,
            };
            items.push((i, *at, tt));
        }
        for (i, j) in veils {
            let (a, b) = match (items.iter().position(|x| x.0 == *i), items.iter().position(|x| x.1 == *j)) {
                (Some(a), Some(b)) if a <= b => (a, b),
                _ => continue,
            };
            let inner: Vec<TokenTree> = items.drain(a..=b).map(|x| x.2).collect();
            let sp = inner[0].span().join(inner[inner.len() - 1].span()).unwrap_or_else(|| inner[0].span());
            let mut n = Group::new(Delimiter::None, inner.into_iter().collect());
            n.set_span(sp);
            items.insert(a, (*i, *j, TokenTree::Group(n)));
        }
        items.into_iter().map(|x| x.2).collect()
    }
    let mut v = veils.to_vec();
    v.sort_by_key(|x| x.1 - x.0);
    go(ts, &mut 0, &v, joint)
}
/// the same tokens, each with the location of another one
pub fn relocated(ts: TokenStream) -> TokenStream {
    fn spans(ts: TokenStream, o: &mut Vec<Span>) {
        for tt in ts {
            o.push(tt.span());
            if let TokenTree::Group(g) = tt { spans(g.stream(), o) }
        }
    }
    fn go(ts: TokenStream, o: &mut Vec<Span>) -> TokenStream {
        ts.into_iter().map(|tt| {
            let sp = o.pop().unwrap();
            match tt {
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), go(g.stream(), o));
                    n.set_span(sp);
                    TokenTree::Group(n)
                }
                mut t => { t.set_span(sp); t }
            }
        }).collect()
    }
    let mut o = vec![];
    spans(ts.clone(), &mut o);
    go(ts, &mut o)
}
fn ranges(mode: &str) -> Vec<(usize, usize)> {
    let l = mode.split(';').nth(1).unwrap_or("");
    l.split(',').filter(|x| !x.is_empty()).map(|x| {
        let (a, b) = x.split_once('-').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    }).collect()
}

pub trait Node: Parse + ToTokens + Dump + PartialEq + std::fmt::Display + std::str::FromStr<Err = parsel::Error> {}
impl<T> Node for T where T: Parse + ToTokens + Dump + PartialEq + std::fmt::Display + std::str::FromStr<Err = parsel::Error> {}

pub fn err_json(e: &parsel::Error) -> String {
    format!("\"r\":\"err\",\"m\":{},\"s\":[{}]", jstr(&e.to_string()), span4(e.span()))
}

/// modes: d dump, p printed tokens, r re-parse printed tokens and texts, s display texts,
///        u no source locations, x span of the node, e other entry points,
///        v parts of it in invisible groups: `v;1-2,4-4`,
///        j with it, punctuation marked as joined with whatever follows it, w: each token with
///        the location of another one
pub fn run<T: Node>(mode: &str, text: &str) -> String {
    let has = |c: char| mode.contains(c);
    let res: Result<T, parsel::Error> = if has('u') {
        match text.parse::<TokenStream>() {
            Ok(ts) => parsel::parse2(unlocated(ts, Span::call_site())),
            Err(e) => Err(e.into()),
        }
    } else if has('v') {
        match text.parse::<TokenStream>() {
            Ok(ts) => {
                let ts = veiled(ts, &ranges(mode), has('j'));
                parsel::parse2(if has('w') { relocated(ts) } else { ts })
            }
            Err(e) => Err(e.into()),
        }
    } else {
        parsel::parse_str(text)
    };
    answer(res, mode, text)
}
/// what there is to see of the outcome of parsing
pub fn answer<T: Node>(res: Result<T, parsel::Error>, mode: &str, text: &str) -> String {
    let has = |c: char| mode.contains(c);
    let mut o = String::from("{");
    match &res {
        Err(e) => o.push_str(&err_json(e)),
        Ok(t) => {
            o.push_str("\"r\":\"ok\"");
            if has('d') { o.push_str(",\"d\":"); t.dump(&mut o); }
            if has('p') { o.push_str(",\"p\":"); tokens(t.to_token_stream(), &mut o); }
            if has('s') {
                let _ = write!(o, ",\"disp\":{},\"alt\":{}", jstr(&t.to_string()), jstr(&format!("{:#}", t)));
            }
            if has('x') { let _ = write!(o, ",\"x\":[{}]", span4(Spanned::span(t))); }
            if has('r') {
                let a = parsel::parse2::<T>(t.to_token_stream()).map_or(false, |u| u == *t);
                let b = parsel::parse_str::<T>(&t.to_string()).map_or(false, |u| u == *t);
                let c = parsel::parse_str::<T>(&format!("{:#}", t)).map_or(false, |u| u == *t);
                let _ = write!(o, ",\"rt\":[{},{},{}]", a, b, c);
            }
        }
    }
    if has('e') {
        let same = |b: &Result<T, parsel::Error>, sp: bool| match (&res, b) {
            (Ok(a), Ok(b)) => a == b && (!sp || {
                let (mut x, mut y) = (String::new(), String::new());
                a.dump(&mut x);
                b.dump(&mut y);
                x == y
            }),
            (Err(a), Err(b)) => a.to_string() == b.to_string() && (!sp || span4(a.span()) == span4(b.span())),
            _ => false,
        };
        let a = same(&text.parse::<T>(), true);
        let b = match text.parse::<TokenStream>() {
            Ok(ts) => same(&parsel::parse2::<T>(ts), true),
            Err(_) => res.is_err(),
        };
        let _ = write!(o, ",\"ent\":[{},{}]", a, b);
    }
    o.push('}');
    o
}

pub fn unhex(h: &str) -> String {
    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

pub fn guarded<F: FnOnce() -> String>(f: F) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            format!("{{\"r\":\"panic\",\"m\":{}}}", jstr(&m))
        }
    }
}

/// main loop: reads vectors from stdin, answers one JSON line each
pub fn serve(dispatch: fn(&[&str]) -> String) {
    std::panic::set_hook(Box::new(|_| {}));
    let work = move || {
        let stdin = std::io::stdin();
        let stdout = std::io::stdout();
        let mut out = stdout.lock();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let f: Vec<&str> = line.split('\t').collect();
            let r = guarded(|| dispatch(&f));
            out.write_all(r.as_bytes()).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
    };
    // a known amount of stack, whatever the limits of the shell are
    std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap();
}
