//! Run-time support for the generated conformance programs: an observable token iterator,
//! observable semantic actions, values that spell out their own structure, and the driver.
//!
//! Nothing here knows anything about grammars: it records, the TLA+ specification judges.

use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

////////////////////////////////////////////////////////////////////////////////
// Observation context

/// One observed run of a parser.
#[derive(Default)]
pub struct Ctx {
    /// 0: the iterator was asked for an item, p > 0: the action of production p ran.
    pub ev: Vec<u32>,
    pub acts: u64,
    pub pulls: u64,
    /// Events left before the run is ended by force.
    pub fuel: u64,
    /// Whether to keep `ev`.
    pub keep: bool,
    /// Very long runs (spec/Long.tla): values are digests, and so are the actions.
    pub digest: bool,
    /// ... and the requests before each (`ah`), labels only (`al`), the sum of those numbers (`sum`).
    pub ah: u64,
    pub al: u64,
    pub sum: u64,
    /// Called at each event (sessions).
    pub hook: Option<Hook>,
}

pub type Hook = Arc<dyn Fn(Event) + Send + Sync>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Event {
    Pull(u64),
    Act(u32),
}

thread_local! {
    /// Contexts of the runs active in this thread, innermost last.
    static CTX: RefCell<Vec<Ctx>> = RefCell::new(vec![]);
}

pub struct FuelExhausted;

pub fn enter(ctx: Ctx) {
    CTX.with(|c| c.borrow_mut().push(ctx));
}

pub fn leave() -> Ctx {
    CTX.with(|c| c.borrow_mut().pop().unwrap())
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn event(e: u32) -> u64 {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let (n, hook, exhausted) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.last_mut().expect("event outside of a run");
        let n = if e == 0 {
            c.pulls += 1;
            c.pulls
        } else {
            c.acts += 1;
            c.acts
        };
        if c.keep {
            c.ev.push(e);
        }
        if c.digest && e != 0 {
            c.ah = mix(mix(c.ah, e as u64), c.pulls);
            c.al = mix(c.al, e as u64);
            c.sum += c.pulls;
        }
        let exhausted = c.fuel == 0;
        c.fuel = c.fuel.saturating_sub(1);
        (n, c.hook.clone(), exhausted)
    });
    if exhausted {
        std::panic::panic_any(FuelExhausted);
    }
    if let Some(hook) = hook {
        hook(if e == 0 { Event::Pull(n) } else { Event::Act(e) });
    }
    n
}

////////////////////////////////////////////////////////////////////////////////
// Values

pub trait Val {
    /// The structure of the value.
    fn s(self) -> String;
}

pub trait Mk {
    fn mk(s: String) -> Self;
}

macro_rules! newtypes {
    ($($t:ident)*) => {$(
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $t(pub String);
        impl Val for $t { fn s(self) -> String { self.0 } }
        impl Mk for $t { fn mk(s: String) -> Self { $t(s) } }
    )*};
}
newtypes!(V W X);

pub mod other {
    use super::{Mk, Val};
    newtypes!(V W);
    /// Generic in a type and a lifetime: `G<'static, A>`
    #[derive(Debug, Clone)]
    pub struct G<'a, A>(pub A, pub std::marker::PhantomData<&'a ()>);
    impl<'a, A: Val> Val for G<'a, A> { fn s(self) -> String { self.0.s() } }
    impl<'a, A: Mk> Mk for G<'a, A> { fn mk(s: String) -> Self { G(A::mk(s), std::marker::PhantomData) } }
}

/// Types that differ in a constant, in a projection, behind `dyn` or in a function type.
#[derive(Debug, Clone)]
pub struct Sel<A, const N: usize>(pub A);
impl<A: Val, const N: usize> Val for Sel<A, N> { fn s(self) -> String { self.0.s() } }
impl<A: Mk, const N: usize> Mk for Sel<A, N> { fn mk(s: String) -> Self { Sel(A::mk(s)) } }
pub trait Proj { type Out; }
impl Proj for V { type Out = other::V; }
impl Proj for W { type Out = other::W; }
#[derive(Debug, Clone)]
pub struct F<A>(pub String, pub std::marker::PhantomData<A>);
impl<A> Val for F<A> { fn s(self) -> String { self.0 } }
impl<A> Mk for F<A> { fn mk(s: String) -> Self { F(s, std::marker::PhantomData) } }
pub trait Shown: std::fmt::Debug { fn shown(&self) -> String; }
impl Shown for V { fn shown(&self) -> String { self.0.clone() } }
impl Val for Box<dyn Shown> { fn s(self) -> String { self.shown() } }
impl Mk for Box<dyn Shown> { fn mk(s: String) -> Self { Box::new(V(s)) } }

impl Val for () { fn s(self) -> String { "u".to_string() } }
impl Val for String { fn s(self) -> String { self } }
impl Mk for String { fn mk(s: String) -> Self { s } }
impl<'a> Val for &'a str { fn s(self) -> String { self.to_string() } }
impl<'a> Mk for &'a str { fn mk(s: String) -> Self { Box::leak(s.into_boxed_str()) } }
impl<T: Val> Val for Box<T> { fn s(self) -> String { (*self).s() } }
impl<T: Mk> Mk for Box<T> { fn mk(s: String) -> Self { Box::new(T::mk(s)) } }
impl<T: Val> Val for (T,) { fn s(self) -> String { self.0.s() } }
impl<T: Mk> Mk for (T,) { fn mk(s: String) -> Self { (T::mk(s),) } }
impl<T: Val> Val for Option<T> { fn s(self) -> String { self.unwrap().s() } }
impl<T: Mk> Mk for Option<T> { fn mk(s: String) -> Self { Some(T::mk(s)) } }
impl<T: Val + std::fmt::Debug> Val for Result<T, u8> { fn s(self) -> String { self.unwrap().s() } }
impl<T: Mk> Mk for Result<T, u8> { fn mk(s: String) -> Self { Ok(T::mk(s)) } }
impl<T: Val> Val for Vec<T> { fn s(self) -> String { self.into_iter().next().unwrap().s() } }
impl<T: Mk> Mk for Vec<T> { fn mk(s: String) -> Self { vec![T::mk(s)] } }
impl<T: Val> Val for [T; 1] { fn s(self) -> String { let [x] = self; x.s() } }
impl<T: Mk> Mk for [T; 1] { fn mk(s: String) -> Self { [T::mk(s)] } }
/// Payload pairs (tokens with two bound parts)
impl<A: Val, B: Val> Val for (A, B) { fn s(self) -> String { format!("{}&{}", self.0.s(), self.1.s()) } }

pub fn s<T: Val>(x: T) -> String {
    x.s()
}

/// Longer values are abbreviated, as in the specification (Parser.tla, NodeValue).
const VALUE_CAP: usize = 3000;

fn mix(h: u64, x: u64) -> u64 {
    (h * 31 + x + 1) % 67108859
}

/// Digest of a value: of a token without value, with one, of a node.
fn digest(s: &str) -> u64 {
    match s.strip_prefix('h').unwrap_or(s) {
        "u" => 1,
        s => s.parse().unwrap_or(0),
    }
}

/// A semantic action: production `p` with the values of its named symbols, in the order of the
/// symbols.
pub fn act<T: Mk>(p: u32, args: Vec<String>) -> T {
    let n = event(p);
    if CTX.with(|c| c.borrow().last().map_or(false, |c| c.digest)) {
        return T::mk(format!("h{}", args.iter().fold(p as u64, |h, a| mix(h, digest(a)))));
    }
    let mut v = format!("n{}[", p);
    for a in &args {
        v.push_str(a);
        v.push(',');
    }
    v.push(']');
    if v.len() > VALUE_CAP {
        v = format!("#{}", n);
    }
    T::mk(v)
}

////////////////////////////////////////////////////////////////////////////////
// Iterator

/// The error type of the token iterator. Deliberately not `PartialEq`.
#[derive(Debug, Clone)]
pub struct LexErr(pub String);

/// What the iterator offers: t > 0 a token of terminal t, -x an error with payload x, 0 the end.
#[derive(Clone, Debug)]
pub struct Feed {
    pub items: Arc<Vec<i32>>,
    /// After the last item: start again from here. `None`: the end, for ever.
    pub cycle: Option<usize>,
}

/// The observable token iterator of a grammar with the token type `T`.
pub struct It<T> {
    feed: Feed,
    pos: usize,
    n: u64,
    mk: fn(u32, u64) -> T,
}

impl<T> It<T> {
    pub fn new(feed: Feed, mk: fn(u32, u64) -> T) -> Self {
        It { feed, pos: 0, n: 0, mk }
    }
}

impl<T> Iterator for It<T> {
    type Item = Result<T, LexErr>;
    /// Always correct, and of varying precision. Not an event: asking is allowed at any time.
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.feed.cycle.is_some() {
            return (usize::MAX, None);
        }
        let rest = &self.feed.items[self.pos..];
        let n = rest.iter().position(|x| *x == 0).unwrap_or(rest.len());
        match self.feed.items.len() % 4 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n + n / 2)),
            _ => (0, Some(n)),
        }
    }
    fn next(&mut self) -> Option<Self::Item> {
        event(0);
        self.n += 1;
        if self.pos == self.feed.items.len() {
            match self.feed.cycle {
                Some(c) => self.pos = c,
                None => return None,
            }
        }
        let x = self.feed.items[self.pos];
        if x == 0 {
            return None;
        }
        self.pos += 1;
        Some(if x < 0 {
            Err(LexErr((-(x as i64)).to_string()))
        } else {
            Ok((self.mk)(x as u32, self.n))
        })
    }
}

////////////////////////////////////////////////////////////////////////////////
// Results

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Ret {
    pub k: &'static str,
    pub v: String,
    pub f: String,
    pub x: String,
}

/// Converts the result of a generated `parse` function. A macro as every grammar has a `ParseError`
/// type of its own.
#[macro_export]
macro_rules! conv {
    ($e:expr) => {
        match $e {
            Ok(v) => $crate::Ret { k: "ok", v: $crate::s(v), ..Default::default() },
            Err(ParseError::LexerError(e)) => {
                let e: $crate::LexErr = e;
                $crate::Ret { k: "lerr", v: e.0, ..Default::default() }
            }
            Err(ParseError::ParserError { found, expected }) => {
                let (found, expected): (&'static str, &'static str) = (found, expected);
                $crate::Ret { k: "perr", f: found.to_string(), x: expected.to_string(), ..Default::default() }
            }
        }
    };
}

pub type RunFn = fn(usize, Feed) -> Ret;

pub fn observe_panic(p: Box<dyn std::any::Any + Send>) -> Ret {
    let k = if p.is::<FuelExhausted>() { "fuel" } else { "panic" };
    let v = if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else {
        String::new()
    };
    Ret { k, v, ..Default::default() }
}

/// Runs a parser under observation.
pub fn observe(run: RunFn, entry: usize, feed: Feed, ctx: Ctx) -> (Ret, Ctx) {
    let depth = CTX.with(|c| c.borrow().len());
    enter(ctx);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(entry, feed)));
    let ret = match r {
        Ok(ret) => ret,
        Err(p) => observe_panic(p),
    };
    CTX.with(|c| c.borrow_mut().truncate(depth + 1));
    (ret, leave())
}

////////////////////////////////////////////////////////////////////////////////
// Driver

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn ret_json(r: &Ret) -> String {
    format!(
        "{{\"k\":\"{}\",\"v\":{},\"f\":{},\"x\":{}}}",
        r.k, json_str(&r.v), json_str(&r.f), json_str(&r.x)
    )
}

/// Decodes an input: items separated by blanks; `N*(items)` in run-length form is `rN` markers:
/// `x` item, `(x y z)*n` repetition, `@k` the stream cycles from item k (0-based) for ever.
pub fn decode(words: &[&str]) -> Feed {
    let mut items: Vec<i32> = vec![];
    let mut cycle = None;
    let mut i = 0;
    while i < words.len() {
        let w = words[i];
        if w == "(" {
            let j = words[i..].iter().position(|x| x.starts_with(")*")).unwrap() + i;
            let part: Vec<i32> = words[i + 1..j].iter().map(|x| x.parse().unwrap()).collect();
            let n: usize = words[j][2..].parse().unwrap();
            for _ in 0..n {
                items.extend_from_slice(&part);
            }
            i = j + 1;
            continue;
        }
        if let Some(k) = w.strip_prefix('@') {
            cycle = Some(k.parse().unwrap());
        } else {
            items.push(w.parse().unwrap());
        }
        i += 1;
    }
    Feed { items: Arc::new(items), cycle }
}

/// Payloads of tokens (spec/Tokens.tla, Show).
pub mod tok {
    pub trait R {
        fn r(self) -> String;
    }
    pub fn r<T: R>(x: T) -> String {
        x.r()
    }
    pub fn show(c: &str, fs: Vec<String>) -> String {
        if fs.is_empty() { c.to_string() } else { format!("{}({})", c, fs.join(",")) }
    }
    impl R for u8 { fn r(self) -> String { self.to_string() } }
    impl R for i64 { fn r(self) -> String { self.to_string() } }
    impl R for bool { fn r(self) -> String { self.to_string() } }
    impl R for char { fn r(self) -> String { format!("c{}", self as u32) } }
    impl<'a> R for &'a str { fn r(self) -> String { format!("s:{}", self) } }
    impl R for String { fn r(self) -> String { format!("s:{}", self) } }
    impl R for &'static [u8] {
        fn r(self) -> String {
            format!("b:{}", self.iter().map(|b| b.to_string()).collect::<Vec<_>>().join("."))
        }
    }
    impl R for () { fn r(self) -> String { "u".to_string() } }
    impl<T: R> R for Box<T> { fn r(self) -> String { (*self).r() } }
    impl<T: R> R for Option<T> {
        fn r(self) -> String { match self { None => show("None", vec![]), Some(x) => show("Some", vec![x.r()]) } }
    }
    impl<T: R, E: R> R for Result<T, E> {
        fn r(self) -> String { match self { Ok(x) => show("Ok", vec![x.r()]), Err(x) => show("Err", vec![x.r()]) } }
    }
    macro_rules! tuples {
        ($(($($t:ident)*))*) => {$(
            impl<$($t: R),*> R for ($($t,)*) {
                #[allow(non_snake_case)]
                fn r(self) -> String { let ($($t,)*) = self; show("", vec![$($t.r()),*]) }
            }
        )*};
    }
    tuples!((A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H)
        (A B C D E F G H I) (A B C D E F G H I J) (A B C D E F G H I J K) (A B C D E F G H I J K L)
        (A B C D E F G H I J K L M) (A B C D E F G H I J K L M N) (A B C D E F G H I J K L M N O) (A B C D E F G H I J K L M N O P));
}

/// Ownership (spec/Owner.tla): tokens, values and errors that are accounted for. A module that says
/// `use rt::own as rt` has these instead of the strings above.
pub mod own {
    use super::{event, observe_panic, Feed, Ret};
    use std::cell::RefCell;
    use std::collections::BTreeMap;

    #[derive(Default)]
    pub struct Ledger {
        /// instances by identity
        alive: BTreeMap<i64, i64>,
        used: Vec<Vec<i64>>,
        dropped: Vec<i64>,
        acts: i64,
    }

    thread_local! {
        static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    }

    fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
        LEDGER.with(|l| f(&mut l.borrow_mut()))
    }

    /// Something that is made once and given away once.
    #[derive(Debug)]
    pub struct O(i64);

    impl O {
        pub fn new(id: i64) -> O {
            ledger(|l| *l.alive.entry(id).or_insert(0) += 1);
            O(id)
        }
        /// Ends here: not dropped by others.
        pub fn end(self) -> i64 {
            let id = self.0;
            ledger(|l| *l.alive.entry(id).or_insert(0) -= 1);
            std::mem::forget(self);
            id
        }
    }

    impl Drop for O {
        fn drop(&mut self) {
            ledger(|l| {
                *l.alive.entry(self.0).or_insert(0) -= 1;
                l.dropped.push(self.0);
            });
        }
    }

    /// Part j of the token of request k.
    pub fn part(k: u64, j: i64) -> O {
        O::new(4 * k as i64 + j)
    }

    /// A lexer error. Its copies have its identity.
    #[derive(Debug)]
    pub struct LexErr(i64);

    impl LexErr {
        fn new(id: i64) -> LexErr {
            ledger(|l| *l.alive.entry(id).or_insert(0) += 1);
            LexErr(id)
        }
    }

    impl Clone for LexErr {
        fn clone(&self) -> LexErr { LexErr::new(self.0) }
    }

    impl Drop for LexErr {
        fn drop(&mut self) {
            ledger(|l| *l.alive.entry(self.0).or_insert(0) -= 1);
        }
    }

    pub trait Val { fn os(self, to: &mut Vec<O>); }
    pub trait Mk { fn mk(o: O) -> Self; }
    macro_rules! newtypes {
        ($($t:ident)*) => {$(
            #[derive(Debug)]
            pub struct $t(pub O);
            impl Val for $t { fn os(self, to: &mut Vec<O>) { to.push(self.0) } }
            impl Mk for $t { fn mk(o: O) -> Self { $t(o) } }
        )*};
    }
    newtypes!(V W X);
    pub mod other {
        use super::{Mk, Val, O};
        newtypes!(V W);
    }
    impl Val for () { fn os(self, _: &mut Vec<O>) {} }
    impl<T: Val> Val for Box<T> { fn os(self, to: &mut Vec<O>) { (*self).os(to) } }
    impl<T: Mk> Mk for Box<T> { fn mk(o: O) -> Self { Box::new(T::mk(o)) } }
    impl<T: Val> Val for (T,) { fn os(self, to: &mut Vec<O>) { self.0.os(to) } }
    impl<T: Mk> Mk for (T,) { fn mk(o: O) -> Self { (T::mk(o),) } }
    impl<T: Val> Val for Option<T> { fn os(self, to: &mut Vec<O>) { if let Some(x) = self { x.os(to) } } }
    impl<T: Mk> Mk for Option<T> { fn mk(o: O) -> Self { Some(T::mk(o)) } }
    impl<T: Val> Val for Vec<T> { fn os(self, to: &mut Vec<O>) { for x in self { x.os(to) } } }
    impl<T: Mk> Mk for Vec<T> { fn mk(o: O) -> Self { vec![T::mk(o)] } }
    impl<T: Val> Val for [T; 1] { fn os(self, to: &mut Vec<O>) { let [x] = self; x.os(to) } }
    impl<T: Mk> Mk for [T; 1] { fn mk(o: O) -> Self { [T::mk(o)] } }
    impl<T: Val> Val for Result<T, u8> { fn os(self, to: &mut Vec<O>) { if let Ok(x) = self { x.os(to) } } }
    impl<T: Mk> Mk for Result<T, u8> { fn mk(o: O) -> Self { Ok(T::mk(o)) } }
    impl<A: Val, B: Val> Val for (A, B) { fn os(self, to: &mut Vec<O>) { self.0.os(to); self.1.os(to) } }
    impl<A: Val, B: Val, C: Val> Val for (A, B, C) { fn os(self, to: &mut Vec<O>) { self.0.os(to); self.1.os(to); self.2.os(to) } }

    pub fn s<T: Val>(x: T) -> Vec<O> {
        let mut v = vec![];
        x.os(&mut v);
        v
    }

    pub fn act<T: Mk>(p: u32, args: Vec<Vec<O>>) -> T {
        let ids: Vec<i64> = args.into_iter().flatten().map(O::end).collect();
        ledger(|l| l.used.push(ids));
        event(p);
        let n = ledger(|l| { l.acts += 1; l.acts });
        T::mk(O::new(-n))
    }

    /// The token iterator; itself something to be dropped (0).
    pub struct It<T> {
        feed: Feed,
        pos: usize,
        n: u64,
        mk: fn(u32, u64) -> T,
        _me: O,
    }

    impl<T> It<T> {
        pub fn new(feed: Feed, mk: fn(u32, u64) -> T) -> Self {
            It { feed, pos: 0, n: 0, mk, _me: O::new(0) }
        }
    }

    impl<T> Iterator for It<T> {
        type Item = Result<T, LexErr>;
        fn next(&mut self) -> Option<Self::Item> {
            event(0);
            self.n += 1;
            if self.pos == self.feed.items.len() {
                return None;
            }
            let x = self.feed.items[self.pos];
            if x == 0 {
                return None;
            }
            self.pos += 1;
            Some(if x < 0 { Err(LexErr::new(4 * self.n as i64)) } else { Ok((self.mk)(x as u32, self.n)) })
        }
    }

    fn join(v: &[i64]) -> String {
        v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    }

    /// What is alive, as often as it is.
    fn alive(l: &Ledger) -> Vec<i64> {
        l.alive.iter().flat_map(|(id, n)| (0..n.unsigned_abs()).map(move |_| *id)).collect()
    }

    pub enum Back { Value(Vec<O>), Error(LexErr), Syntax, Panic }

    /// Runs a parse and takes stock: `used;..;..|back|dropped|left`.
    pub fn account<R>(parse: impl FnOnce() -> R, open: impl FnOnce(R) -> Back) -> Ret {
        ledger(|l| *l = Ledger::default());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(parse));
        // everything given up is given up by now
        let dropped = ledger(|l| std::mem::take(&mut l.dropped));
        let (mut ret, back) = match r {
            Ok(r) => match open(r) {
                b @ Back::Value(_) => (Ret { k: "ok", ..Default::default() }, b),
                b @ Back::Error(_) => (Ret { k: "lerr", ..Default::default() }, b),
                b => (Ret { k: "perr", ..Default::default() }, b),
            },
            Err(p) => (observe_panic(p), Back::Panic),
        };
        let back: Vec<i64> = match back {
            Back::Value(os) => os.into_iter().map(O::end).collect(),
            Back::Error(e) => vec![e.0],
            _ => vec![],
        };
        ledger(|l| {
            let used: Vec<String> = l.used.iter().map(|u| join(u)).collect();
            ret.v = format!("{}|{}|{}|{}|{}", l.used.len(), used.join(";"), join(&back), join(&dropped), join(&alive(l)));
        });
        ret
    }

    #[macro_export]
    macro_rules! own_conv {
        ($e:expr) => {
            $crate::own::account(|| $e, |r| match r {
                Ok(v) => $crate::own::Back::Value($crate::own::s(v)),
                Err(ParseError::LexerError(e)) => $crate::own::Back::Error(e),
                Err(ParseError::ParserError { .. }) => $crate::own::Back::Syntax,
            })
        };
    }
    pub use own_conv as conv;
}

/// Sessions: several runs whose events are interleaved as prescribed.
pub mod sessions {
    use super::*;
    use std::sync::Condvar;
    use std::time::{Duration, Instant};

    #[derive(Clone)]
    pub struct Job {
        pub run: RunFn,
        pub entry: usize,
        pub feed: Feed,
        /// (job, number of its event, 1-based): started within that event, in the same thread
        pub parent: Option<(usize, usize)>,
        /// runs after this job in its thread
        pub after: Option<usize>,
        /// Events after which the run is ended by a panic in its action or iterator
        pub fuel: u64,
    }

    #[derive(Default)]
    struct St {
        /// which job may make the next event
        pos: usize,
        done: Vec<bool>,
        /// (job, event), in order; event -1: returned, -2: started
        log: Vec<(usize, i64)>,
        results: Vec<Option<Ret>>,
        stuck: bool,
    }

    struct Shared {
        st: Mutex<St>,
        cv: Condvar,
        jobs: Vec<Job>,
        schedule: Vec<usize>,
        /// No schedule: the threads run as they like.
        free: bool,
    }

    thread_local! {
        /// What happened in this thread (free-running sessions).
        static LOG: RefCell<Vec<(usize, i64)>> = RefCell::new(vec![]);
    }

    /// Waits until it is the job's turn, then logs the event.
    fn turn(sh: &Shared, j: usize, e: i64) {
        if sh.free {
            LOG.with(|l| l.borrow_mut().push((j, e)));
            return;
        }
        let deadline = Instant::now() + Duration::from_secs(30);
        let mut st = sh.st.lock().unwrap_or_else(|e| e.into_inner());
        loop {
            while st.pos < sh.schedule.len() && st.done[sh.schedule[st.pos]] {
                st.pos += 1;
            }
            if st.pos >= sh.schedule.len() || sh.schedule[st.pos] == j || st.stuck {
                break;
            }
            let now = Instant::now();
            if now >= deadline {
                st.stuck = true;
                break;
            }
            st = sh.cv.wait_timeout(st, deadline - now).unwrap_or_else(|e| e.into_inner()).0;
        }
        if st.pos < sh.schedule.len() {
            st.pos += 1;
        }
        st.log.push((j, e));
        sh.cv.notify_all();
    }

    fn start(sh: &Arc<Shared>, j: usize) {
        let job = sh.jobs[j].clone();
        let sh2 = sh.clone();
        let count = AtomicU64::new(0);
        let hook: Hook = Arc::new(move |e| {
            let n = count.fetch_add(1, Ordering::SeqCst) as usize + 1;
            turn(&sh2, j, match e { Event::Pull(_) => 0, Event::Act(p) => p as i64 });
            for (k, child) in sh2.jobs.iter().enumerate() {
                if child.parent == Some((j, n)) {
                    start(&sh2, k);
                }
            }
        });
        let ctx = Ctx { fuel: job.fuel, keep: false, hook: Some(hook), ..Default::default() };
        let (ret, _) = observe(job.run, job.entry, job.feed, ctx);
        if sh.free {
            LOG.with(|l| l.borrow_mut().push((j, -1)));
        }
        let mut st = sh.st.lock().unwrap_or_else(|e| e.into_inner());
        st.done[j] = true;
        if !sh.free {
            st.log.push((j, -1));
        }
        st.results[j] = Some(ret);
        sh.cv.notify_all();
    }

    pub fn session(jobs: Vec<Job>, schedule: Vec<usize>, free: bool) -> String {
        let n = jobs.len();
        let roots = jobs.iter().filter(|j| j.parent.is_none() && j.after.is_none()).count();
        let barrier = Arc::new(std::sync::Barrier::new(roots));
        let sh = Arc::new(Shared {
            st: Mutex::new(St { done: vec![false; n], results: vec![None; n], ..Default::default() }),
            cv: Condvar::new(),
            jobs,
            schedule,
            free,
        });
        let mut threads = vec![];
        for j in 0..n {
            if sh.jobs[j].parent.is_none() && sh.jobs[j].after.is_none() {
                let sh = sh.clone();
                let barrier = barrier.clone();
                threads.push(std::thread::spawn(move || {
                    if sh.free {
                        barrier.wait();
                    }
                    let mut cur = Some(j);
                    while let Some(c) = cur {
                        start(&sh, c);
                        cur = (0..sh.jobs.len()).find(|k| sh.jobs[*k].after == Some(c));
                    }
                    // one thread after the other: the threads share nothing, so that any
                    // order is as good as what happened
                    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
                    sh.st.lock().unwrap_or_else(|e| e.into_inner()).log.extend(log);
                }));
            }
        }
        for t in threads {
            let _ = t.join();
        }
        let st = sh.st.lock().unwrap_or_else(|e| e.into_inner());
        let log: Vec<String> = st.log.iter().map(|(j, e)| format!("[{},{}]", j + 1, e)).collect();
        let none = Ret { k: "none", ..Default::default() };
        let rets: Vec<String> = st.results.iter().map(|r| ret_json(r.as_ref().unwrap_or(&none))).collect();
        format!("{{\"log\":[{}],\"rets\":[{}],\"stuck\":{}}}", log.join(","), rets.join(","), st.stuck)
    }

    /// `gid entry parent event after fuel item item ... ; ... | schedule` with jobs 1-based, 0 for none.
    pub fn decode_session(line: &str, parsers: &[(u32, RunFn)]) -> (Vec<Job>, Vec<usize>) {
        let (js, sched) = line.split_once('|').unwrap();
        let jobs = js
            .split(';')
            .map(|j| {
                let w: Vec<&str> = j.split_whitespace().collect();
                let gid: u32 = w[0].parse().unwrap();
                let parent: usize = w[2].parse().unwrap();
                let event: usize = w[3].parse().unwrap();
                let after: usize = w[4].parse().unwrap();
                Job {
                    run: parsers.iter().find(|p| p.0 == gid).unwrap().1,
                    entry: w[1].parse().unwrap(),
                    feed: decode(&w[6..]),
                    parent: if parent == 0 { None } else { Some((parent - 1, event)) },
                    after: if after == 0 { None } else { Some(after - 1) },
                    fuel: w[5].parse().unwrap(),
                }
            })
            .collect();
        (jobs, sched.split_whitespace().map(|x| x.parse::<usize>().unwrap() - 1).collect())
    }
}

/// Reads `gid entry fuel keep item...` lines, prints one JSON line per run, in order.
pub fn main(parsers: &[(u32, RunFn)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let current: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));

    // A run without any event for this long is taken to hang.
    let limit = std::env::var("RT_HANG_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(20u64);
    {
        let current = current.clone();
        std::thread::spawn(move || {
            let mut last = (0, None, std::time::Instant::now());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let cur = current.lock().unwrap().clone();
                let now = PROGRESS.load(Ordering::Relaxed);
                if cur.is_none() || now != last.0 || cur != last.1 {
                    last = (now, cur, std::time::Instant::now());
                } else if last.2.elapsed().as_secs() >= limit {
                    println!("{{\"log\":[],\"rets\":[],\"stuck\":true,\"ev\":[],\"np\":0,\"na\":0,\"ah\":0,\"al\":0,\"sum\":[0,0],\"ret\":{{\"k\":\"hang\",\"v\":\"\",\"f\":\"\",\"x\":\"\"}}}}");
                    std::io::stdout().flush().unwrap();
                    std::process::exit(3);
                }
            }
        });
    }

    let body = move |parsers: Vec<(u32, RunFn)>| {
        let stdin = std::io::stdin();
        for (n, line) in stdin.lock().lines().enumerate() {
            let line = line.unwrap();
            let free = line.strip_prefix("free ");
            if let Some(rest) = line.strip_prefix("session ").or(free) {
                let (jobs, schedule) = sessions::decode_session(rest, &parsers);
                *current.lock().unwrap() = Some(format!("{}", n));
                let out = sessions::session(jobs, schedule, free.is_some());
                *current.lock().unwrap() = None;
                println!("{}", out);
                std::io::stdout().flush().unwrap();
                if out.ends_with("\"stuck\":true}") {
                    std::process::exit(3);
                }
                continue;
            }
            let words: Vec<&str> = line.split_whitespace().collect();
            let gid: u32 = words[0].parse().unwrap();
            let entry: usize = words[1].parse().unwrap();
            let fuel: u64 = words[2].parse().unwrap();
            let keep = words[3] == "1";
            let digest = words[3] == "2";
            let feed = decode(&words[4..]);
            let run = parsers.iter().find(|p| p.0 == gid).unwrap().1;
            *current.lock().unwrap() = Some(format!("{}", n));
            let (ret, ctx) = observe(run, entry, feed, Ctx { fuel, keep, digest, ..Default::default() });
            *current.lock().unwrap() = None;
            let ev: Vec<String> = ctx.ev.iter().map(|e| e.to_string()).collect();
            let out = format!(
                "{{\"ev\":[{}],\"np\":{},\"na\":{},\"ah\":{},\"al\":{},\"sum\":[{},{}],\"ret\":{}}}\n",
                ev.join(","), ctx.pulls, ctx.acts, ctx.ah, ctx.al, ctx.sum / 1000000, ctx.sum % 1000000, ret_json(&ret)
            );
            let mut stdout = std::io::stdout();
            stdout.write_all(out.as_bytes()).unwrap();
            stdout.flush().unwrap();
        }
    };
    let parsers = parsers.to_vec();
    // An ordinary thread with the stack size of a main thread.
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || body(parsers))
        .unwrap()
        .join()
        .unwrap();
    std::process::exit(0);
}
