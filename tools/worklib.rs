// C26: what parsing costs.  Terminals are wrapped in a probe that notes every attempt.
use harness::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use parsel::{Parse, ToTokens, TokenStream, Result};
use parsel::syn::parse::ParseStream;

pub struct Counting;
static BYTES: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size() as u64, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { BYTES.fetch_add(n as u64, Relaxed); System.realloc(p, l, n) }
}

thread_local! {
    static TRIES: Cell<u64> = const { Cell::new(0) };
    static LOW: Cell<usize> = const { Cell::new(usize::MAX) };
    static WHERE: RefCell<Option<HashMap<(usize, usize), u64>>> = const { RefCell::new(None) };
}
#[inline(never)]
fn here() -> usize { let x = 0u8; std::hint::black_box(&x as *const u8 as usize) }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Pr<T>(pub T);
impl<T: Parse> Parse for Pr<T> {
    fn parse(input: ParseStream<'_>) -> Result<Self> {
        TRIES.with(|t| t.set(t.get() + 1));
        let h = here();
        LOW.with(|l| if h < l.get() { l.set(h) });
        WHERE.with(|w| if let Some(w) = w.borrow_mut().as_mut() {
            let s = input.span();
            let p = if (s.start().line, s.start().column, s.end().line, s.end().column) == (1, 0, 1, 0) { (0, 0) } else { (s.start().line, s.start().column) };
            *w.entry(p).or_insert(0) += 1;
        });
        T::parse(input).map(Pr)
    }
}
impl<T: ToTokens> ToTokens for Pr<T> { fn to_tokens(&self, ts: &mut TokenStream) { self.0.to_tokens(ts) } }
impl<T: Dump> Dump for Pr<T> { fn dump(&self, o: &mut String) { self.0.dump(o) } }

/// parse on a stack of a known size; the value is given away, destroying it is not part of parsing
pub fn work<T: Parse + 'static>(stack: &str, places: bool, text: String) -> String {
    let kb: usize = stack.parse().unwrap();
    let t = std::thread::Builder::new().stack_size(kb << 10).spawn(move || {
        let ts: TokenStream = text.parse().expect("tokens");
        TRIES.with(|t| t.set(0));
        LOW.with(|t| t.set(usize::MAX));
        WHERE.with(|w| *w.borrow_mut() = if places { Some(HashMap::new()) } else { None });
        let base = here();
        let b0 = BYTES.load(Relaxed);
        let t0 = std::time::Instant::now();
        let r = parsel::parse2::<T>(ts);
        let ms = t0.elapsed().as_millis();
        let bytes = BYTES.load(Relaxed) - b0;
        let (ok, m) = match &r { Ok(_) => (true, String::new()), Err(e) => (false, e.to_string()) };
        std::mem::forget(r);
        let low = LOW.with(|l| l.get());
        let mut o = format!("{{\"r\":\"ok\",\"ok\":{},\"m\":{},\"tries\":{},\"depth\":{},\"bytes\":{},\"ms\":{}", ok, jstr(&m[m.len() - m.len().min(120)..]), TRIES.with(|t| t.get()), if low == usize::MAX { 0 } else { base.saturating_sub(low) }, bytes, ms);
        if places {
            o.push_str(",\"at\":[");
            let w = WHERE.with(|w| w.borrow_mut().take().unwrap());
            let mut sep = "";
            for ((l, c), n) in w { let _ = write!(o, "{}[{},{},{}]", sep, l, c, n); sep = ","; }
            o.push(']');
        }
        o.push('}');
        o
    }).unwrap();
    match t.join() { Ok(s) => s, Err(e) => std::panic::resume_unwind(e) }
}
