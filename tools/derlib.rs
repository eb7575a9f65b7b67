#![allow(dead_code, unused_imports, unused_variables, non_camel_case_types, non_snake_case, mixed_script_confusables, uncommon_codepoints, unexpected_cfgs, hidden_glob_reexports, type_alias_bounds)]
/// helpers the declarations refer to by absolute path
pub mod help {
    use parsel::{Parse, ToTokens, TokenStream};
    use parsel::syn::parse::ParseStream;
    use harness::Dump;
    use std::marker::PhantomData;
    #[derive(Clone, Copy, Debug, Default)] pub struct NoP;
    impl PartialEq for NoP { fn eq(&self, _: &Self) -> bool { true } }
    #[derive(Clone, Debug, PartialEq)] pub struct OnlyP;
    impl Parse for OnlyP { fn parse(_: ParseStream<'_>) -> parsel::Result<Self> { Ok(OnlyP) } }
    #[derive(Clone, Debug, PartialEq)] pub struct OnlyT;
    impl ToTokens for OnlyT { fn to_tokens(&self, _: &mut TokenStream) {} }
    /// reads "-" whatever the parameter
    pub struct Pass<T: ?Sized>(pub parsel::syn::Token![-], PhantomData<T>);
    impl<T: ?Sized> Clone for Pass<T> { fn clone(&self) -> Self { Pass(self.0, PhantomData) } }
    impl<T: ?Sized> PartialEq for Pass<T> { fn eq(&self, _: &Self) -> bool { true } }
    impl<T: ?Sized> Parse for Pass<T> { fn parse(i: ParseStream<'_>) -> parsel::Result<Self> { Ok(Pass(i.parse()?, PhantomData)) } }
    impl<T: ?Sized> ToTokens for Pass<T> { fn to_tokens(&self, o: &mut TokenStream) { self.0.to_tokens(o) } }
    impl<T: ?Sized> Dump for Pass<T> { fn dump(&self, o: &mut String) { self.0.dump(o) } }
    pub trait Tr { type Out; }
    impl<T> Tr for T { type Out = parsel::syn::Token![*]; }
    /// reads "+" N times
    #[derive(Clone, Debug, PartialEq)] pub struct Rep<const N: usize>(pub Vec<parsel::syn::Token![+]>);
    impl<const N: usize> Parse for Rep<N> { fn parse(i: ParseStream<'_>) -> parsel::Result<Self> { (0..N).map(|_| i.parse()).collect::<parsel::Result<_>>().map(Rep) } }
    impl<const N: usize> ToTokens for Rep<N> { fn to_tokens(&self, o: &mut TokenStream) { for t in &self.0 { t.to_tokens(o) } } }
    impl<const N: usize> Dump for Rep<N> { fn dump(&self, o: &mut String) { let c: Vec<&dyn Dump> = self.0.iter().map(|x| x as &dyn Dump).collect(); harness::node(o, "any", &c) } }

    pub struct Probe<T: ?Sized>(PhantomData<T>);
    pub trait No { const PARSE: bool = false; const PRINT: bool = false; const READ: bool = false; const SHOW: bool = false; }
    impl<T: ?Sized> No for Probe<T> {}
    impl<T: Parse> Probe<T> { pub const PARSE: bool = true; }
    impl<T: ToTokens + ?Sized> Probe<T> { pub const PRINT: bool = true; }
    impl<T: std::str::FromStr<Err = parsel::Error>> Probe<T> { pub const READ: bool = true; }
    impl<T: std::fmt::Display + ?Sized> Probe<T> { pub const SHOW: bool = true; }
    pub fn flags(l: &[[bool; 4]]) -> String { format!("{{\"r\":\"ok\",\"flags\":{:?}}}", l) }
    pub fn put(o: &mut String, v: usize, c: &[&dyn Dump]) {
        o.push_str(&format!("[\"node\",{},[", v));
        for (i, c) in c.iter().enumerate() { if i > 0 { o.push(',') } c.dump(o); }
        o.push_str("]]");
    }
    /// texts of something that borrows
    pub fn shown<T: ToTokens + std::fmt::Display>(t: &T) -> String {
        let mut p = String::new(); harness::tokens(t.to_token_stream(), &mut p);
        format!("{{\"r\":\"ok\",\"p\":{},\"disp\":{},\"alt\":{}}}", p, harness::jstr(&t.to_string()), harness::jstr(&format!("{:#}", t)))
    }
    pub use harness::{run, Dump as D};
}
