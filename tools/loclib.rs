#![allow(dead_code, unused_imports)]
use harness::*;
use std::cell::RefCell;
use std::fmt::Write as _;
use parsel::ast::*;
use parsel::syn::Token;
use parsel::util::{SpannedExt, SpanDisplay};
use parsel::{Parse, ToTokens, FromStr, Display, Spanned};

parsel::define_keywords!{ mod kw { begin => Begin; endé => End; _ => Under; } }
type Word = CustomIdent<kw::Keywords>;

#[derive(Clone, PartialEq, Parse, ToTokens, FromStr, Display)]
enum Item {
    Kw(kw::Begin), Kw2(kw::End), Kw3(kw::Under),
    Bool(LitBool), Byte(LitByte), Float(LitFloat), Uint(LitUint), Int(LitInt), Char(LitChar), Str(LitStr), Bytes(LitByteStr),
    Word(Word),
    Arrow(Token![=>]), Shl(Token![<<=]),
    /// a literal of any kind, after a marker
    Any { at: Token![@], lit: Lit },
    Par(#[parsel(recursive)] Paren<Any<Item>>),
    Brk(#[parsel(recursive)] Bracket<Punctuated<Item, Token![,]>>),
    Brc(#[parsel(recursive)] Brace<Box<Body>>),
}
#[derive(Clone, PartialEq, Parse, ToTokens, FromStr, Display)]
enum Body {
    Seq { q: Token![?], #[parsel(recursive)] items: Separated<Item, Token![,]> },
    Left { q: Token![!], #[parsel(recursive)] chain: LeftAssoc<Token![+], Item> },
    Right { q: Token![^], #[parsel(recursive)] chain: RightAssoc<Token![;], Item> },
    Opt { q: Token![#], #[parsel(recursive)] opt: Maybe<Token![=], Box<Item>> },
    Two { q: Token![%], x: Either<LitStr, Ident> },
    Nil(Empty),
}
type Top = Any<Item>;

struct Out<'a> { src: &'a str, k: usize, o: String }
impl<'a> Out<'a> {
    /// what the node n reports, covering the tokens i.. up to the last one seen
    fn put<T: ToTokens + ?Sized>(&mut self, what: &str, n: &T, i: usize) {
        if self.k < i { return }            // no tokens: nothing to denote
        let b = n.byte_range(self.src); let c = n.char_range(self.src);
        let sub = n.source_substring(self.src);
        let fmt = n.format_span().to_string();
        let sp = SpannedExt::span(n);
        let alt = SpanDisplay::from(sp).to_string() == fmt && SpanDisplay::new(sp).to_string() == fmt
            && SpannedExt::byte_range(&sp, self.src) == b && SpannedExt::char_range(&sp, self.src) == c && SpannedExt::source_substring(&sp, self.src) == sub;
        let _ = write!(self.o, "{}[{},{},{},{},{},{},{},{},{},{}]", if self.o.is_empty() { "" } else { "," },
            jstr(what), i, self.k, b.start, b.end, c.start, c.end, jstr(sub), jstr(&fmt), alt);
    }
    fn leaf<T: ToTokens>(&mut self, what: &str, n: &T, tokens: usize) {
        let i = self.k + 1; self.k += tokens; self.put(what, n, i);
    }
}
fn neg(minus: bool) -> usize { if minus { 2 } else { 1 } }
fn item(x: &Item, o: &mut Out) {
    let i = o.k + 1;
    match x {
        Item::Kw(t) => o.leaf("keyword", t, 1), Item::Kw2(t) => o.leaf("keyword", t, 1), Item::Kw3(t) => o.leaf("keyword", t, 1),
        Item::Bool(t) => o.leaf("LitBool", t, 1), Item::Byte(t) => o.leaf("LitByte", t, 1), Item::Char(t) => o.leaf("LitChar", t, 1),
        Item::Uint(t) => o.leaf("LitUint", t, 1), Item::Str(t) => o.leaf("LitStr", t, 1), Item::Bytes(t) => o.leaf("LitByteStr", t, 1),
        Item::Int(t) => o.leaf("LitInt", t, neg(t.to_token_stream().into_iter().count() == 2)),
        Item::Float(t) => o.leaf("LitFloat", t, neg(t.to_token_stream().into_iter().count() == 2)),
        Item::Word(t) => o.leaf("CustomIdent", t, 1),
        Item::Arrow(t) => o.leaf("=>", t, 1), Item::Shl(t) => o.leaf("<<=", t, 1),
        Item::Any { at, lit } => { o.leaf("@", at, 1); o.leaf("Lit", lit, neg(lit.to_token_stream().into_iter().count() == 2)) }
        Item::Par(g) => { o.k += 1; for x in g.iter() { item(x, o) } o.put2("Any", &**g, i + 1); o.k += 1; o.put("Paren", g, i) }
        Item::Brk(g) => {
            o.k += 1;
            for p in g.pairs() { let (v, s) = p.into_tuple(); item(v, o); if let Some(s) = s { o.leaf(",", s, 1) } }
            o.put("Punctuated", &**g, i + 1); o.k += 1; o.put("Bracket", g, i)
        }
        Item::Brc(g) => { o.k += 1; body(&**g, o); o.put("Body", &***g, i + 1); o.k += 1; o.put("Brace", g, i) }
    }
    o.put("Item", x, i);
}
impl<'a> Out<'a> { fn put2<T: ToTokens>(&mut self, what: &str, n: &T, i: usize) { self.put(what, n, i) } }
fn body(b: &Body, o: &mut Out) {
    match b {
        Body::Seq { q, items } => {
            o.leaf("?", q, 1); let i = o.k + 1;
            for p in items.pairs() { let (v, s) = p.into_tuple(); item(v, o); if let Some(s) = s { o.leaf(",", s, 1) } }
            o.put("Separated", items, i)
        }
        Body::Left { q, chain } => { o.leaf("!", q, 1); left(chain, o) }
        Body::Right { q, chain } => { o.leaf("^", q, 1); right(chain, o) }
        Body::Opt { q, opt } => { o.leaf("#", q, 1); let i = o.k + 1; if let Some((p, x)) = opt.as_parts() { o.leaf("=", p, 1); item(x, o) } o.put("Maybe", opt, i) }
        Body::Two { q, x } => { o.leaf("%", q, 1); match x { Either::Left(s) => o.leaf("LitStr", s, 1), Either::Right(w) => o.leaf("Ident", w, 1) } let i = o.k; o.put("Either", x, i) }
        Body::Nil(_) => {}
    }
}
fn left(c: &LeftAssoc<Token![+], Item>, o: &mut Out) {
    let i = o.k + 1;
    match c { LeftAssoc::Binary { lhs, op, rhs } => { left(lhs, o); o.leaf("+", op, 1); item(rhs, o) } LeftAssoc::Rhs(x) => item(x, o) }
    o.put("LeftAssoc", c, i)
}
fn right(c: &RightAssoc<Token![;], Item>, o: &mut Out) {
    let i = o.k + 1;
    match c { RightAssoc::Binary { lhs, op, rhs } => { item(lhs, o); o.leaf(";", op, 1); right(rhs, o) } RightAssoc::Lhs(x) => item(x, o) }
    o.put("RightAssoc", c, i)
}
fn report(t: &Top, src: &str) -> (String, usize) {
    let mut o = Out { src, k: 0, o: String::new() };
    for x in t.iter() { item(x, &mut o) }
    o.put("Any", t, 1);
    (o.o, o.k)
}
thread_local!{ static KEEP: RefCell<(Vec<(Top, String, String)>, usize)> = RefCell::new((vec![], 0)); }
fn dispatch(f: &[&str]) -> String {
    let src = unhex(f[0]);
    let t: Top = match f[1] { "s" => match src.parse() { Ok(t) => t, Err(e) => return format!("{{{}}}", err_json(&e)) },
                              _ => match parsel::parse_str(&src) { Ok(t) => t, Err(e) => return format!("{{{}}}", err_json(&e)) } };
    let (r, k) = report(&t, &src);
    // a node from long ago still reports the same
    let old = KEEP.with(|keep| {
        let mut keep = keep.borrow_mut();
        keep.1 += 1;
        let n = keep.1;
        let ok = if keep.0.is_empty() { true } else { let i = n % keep.0.len(); let (t, s, r) = &keep.0[i]; report(t, s).0 == *r };
        if keep.0.len() < 64 { keep.0.push((t.clone(), src.clone(), r.clone())) } else if n % 100 == 0 { let i = (n / 100) % 64; keep.0[i] = (t.clone(), src.clone(), r.clone()) }
        ok
    });
    // a node without tokens denotes no text, in whatever text
    let nothing = |text: &str| {
        let empty: Any<Word> = parsel::parse_str("").unwrap();
        let e: parsel::ast::Empty = parsel::parse_str("").unwrap();
        [(empty.byte_range(text), empty.char_range(text), empty.source_substring(text)), (e.byte_range(text), e.char_range(text), e.source_substring(text))].into_iter().all(|x| x == (0..0, 0..0, ""))
    };
    let old = if nothing(&src) && nothing("") && nothing("\n") { old.to_string() } else { "\"nothing\"".to_string() };
    format!("{{\"r\":\"ok\",\"n\":{},\"old\":{},\"nodes\":[{}]}}", k, old, r)
}
fn main() { serve(dispatch) }
