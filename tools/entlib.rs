// C25: every way into and out of a node
use harness::*;
use std::fmt::Write as _;
use std::str::FromStr;
use parsel::{Parse, ToTokens, TokenStream, Result, Error, Span, Spanned};
use parsel::syn::parse::Parser;

pub fn answer<T: Dump>(r: &Result<T>) -> String {
    match r {
        Ok(t) => { let mut o = String::from("{\"r\":\"ok\",\"d\":"); t.dump(&mut o); o.push('}'); o }
        Err(e) => format!("{{{}}}", err_json(e)),
    }
}
/// a destination with room for so many bytes
struct Small { left: usize, got: String }
impl std::fmt::Write for Small {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut n = self.left.min(s.len());
        while !s.is_char_boundary(n) { n -= 1; }
        self.got.push_str(&s[..n]);
        if n < s.len() { self.left = 0; return Err(std::fmt::Error); }
        self.left -= n;
        Ok(())
    }
}
pub fn entry<T: Node>(text: &str, caps: &str) -> String {
    let lex = || text.parse::<TokenStream>().map_err(Error::from);
    let routes: [(&str, Box<dyn Fn() -> Result<T> + '_>); 9] = [
        ("parse_str", Box::new(|| parsel::parse_str(text))),
        ("from_str", Box::new(|| T::from_str(text))),
        ("parse", Box::new(|| text.parse())),
        ("from_str of a copy", Box::new(|| { let s = String::from(text); let r = s.parse::<T>(); drop(s); r })),
        ("syn parse_str", Box::new(|| parsel::syn::parse_str(text))),
        ("parser", Box::new(|| T::parse.parse_str(text))),
        ("parse2", Box::new(|| parsel::parse2(lex()?))),
        ("parser2", Box::new(|| T::parse.parse2(lex()?))),
        ("parse2 of a copy", Box::new(|| { let t = lex()?; let c: TokenStream = t.into_iter().collect(); parsel::parse2(c) })),
    ];
    let first = answer(&routes[0].1());
    let mut o = format!("{{\"r\":\"ok\",\"a\":{},\"other\":[", first);
    let mut sep = "";
    for (n, f) in &routes[1..] {
        let b = guarded(|| answer(&f()));
        if b != first { let _ = write!(o, "{}[{},{}]", sep, jstr(n), b); sep = ","; }
    }
    o.push(']');
    if let Ok(t) = routes[0].1() {
        let (p, c) = (format!("{}", t), format!("{:#}", t));
        let _ = write!(o, ",\"pretty\":{},\"compact\":{}", jstr(&p), jstr(&c));
        // other ways of showing it
        let mut bad = vec![];
        if t.to_string() != p { bad.push("to_string") }
        if format!("{}", &&t) != p || format!("{:#}", &&t) != c { bad.push("by reference") }
        let bx: Box<T> = Box::new(t);
        if format!("{}", bx) != p || format!("{:#}", bx) != c { bad.push("boxed") }
        let again: Vec<bool> = [&p, &c].iter().map(|s| s.parse::<T>().map_or(false, |u| u == *bx)).collect();
        if !again[0] { bad.push("reading the pretty form") }
        if !again[1] { bad.push("reading the compact form") }
        for k in caps.split(',').filter(|k| !k.is_empty()) {
            let k: usize = k.parse().unwrap();
            let (full, alt) = if k % 2 == 0 { (&p, false) } else { (&c, true) };
            let left = (k / 2) % (full.len() + 2);
            let mut w = Small { left, got: String::new() };
            let r = if alt { write!(w, "{:#}", bx) } else { write!(w, "{}", bx) };
            // what arrived is a prefix; it is short exactly if that was reported
            if !full.starts_with(&w.got) || r.is_ok() != (w.got.len() == full.len()) || (left >= full.len() && r.is_err()) { bad.push("into a small destination") }
        }
        let _ = write!(o, ",\"bad\":[{}]", bad.iter().map(|b| jstr(b)).collect::<Vec<_>>().join(","));
    }
    o.push('}');
    o
}

/// the pieces that fill the holes of a quotation; every text is located
pub struct Fill { pub h: Vec<Vec<String>>, pub req: Option<Span> }
impl Fill {
    pub fn new(holes: &str, req: &str) -> Fill {
        let h = if holes.is_empty() { vec![] } else {
            holes.split(';').map(|h| h.split(',').filter(|p| !p.is_empty()).map(|p| unhex(&p[1..])).collect()).collect()
        };
        let req = if req.is_empty() { None } else { Some(parsel::parse_str::<parsel::ast::Ident>(&unhex(req)).unwrap().span()) };
        Fill { h, req }
    }
    pub fn one<T: Parse>(&self, k: usize) -> T { parsel::parse_str(&self.h[k][0]).expect("piece") }
    pub fn all<T: Parse>(&self, k: usize) -> Vec<T> { self.h[k].iter().map(|s| parsel::parse_str(s).expect("piece")).collect() }
    pub fn ts1(&self, k: usize) -> TokenStream { self.h[k][0].parse().expect("piece") }
    pub fn ts(&self, k: usize) -> Vec<TokenStream> { self.h[k].iter().map(|s| s.parse().expect("piece")).collect() }
}
/// a quotation read by the macro, the same tokens read by parse2, and (if that succeeds) by the panicking macro
pub fn quoted<T: Node>(tried: Result<T>, ts: TokenStream, pq: impl FnOnce() -> T) -> String {
    let a = answer(&tried);
    let mut o = format!("{{\"r\":\"ok\",\"a\":{},\"toks\":", a);
    tokens(ts.clone(), &mut o);
    let p2 = parsel::parse2::<T>(ts);
    let b = answer(&p2);
    if b != a { let _ = write!(o, ",\"p2\":{}", b); }
    if p2.is_ok() {
        let c = guarded(|| answer(&Ok(pq())));
        if c != a { let _ = write!(o, ",\"pq\":{}", c); }
    }
    o.push('}');
    o
}
