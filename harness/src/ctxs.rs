//! The contexts that parsers run on, and the handler that they call.

use crate::ast::{LITS, U, in_set};
use crate::build::{P, wrap};
use crate::env::{self, Act, Bad, K};
use crate::model::{span_key, text_hash};
use crate::value::V;
use neure::ctx::PolicyMatch;
use neure::ctor::{Extract, Handler};
use neure::ctx::PolicyCtx;
use neure::err::Error;
use neure::neu::{self, Neu, NeuOp};
use neure::prelude::{BytesCtx, CtorOps, CharsCtx, Context, Match, NeuIntoRegexOps};
use neure::regex::{Regex, literal};
use neure::span::Span;
use std::ops::Bound;
use std::sync::Arc;
#[cfg(neure_sim)]
use neure::sim::Mutex as NeuMutex;
#[cfg(not(neure_sim))]
use std::sync::Mutex as NeuMutex;


/// A unit of any kind.
pub struct Un<T>(pub Arc<dyn Neu<T> + Send + Sync>);

impl<T> Clone for Un<T> {
    fn clone(&self) -> Self {
        Un(self.0.clone())
    }
}

impl<T> Neu<T> for Un<T> {
    fn is_match(&self, o: &T) -> bool {
        self.0.is_match(o)
    }
    fn min_length(&self) -> usize {
        self.0.min_length()
    }
}

pub trait ItemT: Copy + PartialEq + Send + Sync + std::fmt::Debug + 'static {
    fn code(&self) -> u32;
    fn of(c: u32) -> Self;
    fn unit(u: &U, id: u32) -> Un<Self>;
}

/// A user closure as a unit.
fn pred<T: ItemT>(site: u32, set: u32) -> impl Fn(&T) -> bool + Send + Sync + 'static {
    move |o: &T| {
        let c = o.code();
        match env::cb(K::Unit, site, c as u64) {
            Act::Flip => !in_set(set, c),
            _ => in_set(set, c),
        }
    }
}

/// A unit inside of another thing that is a unit, too.
struct Held<T>(u8, Un<T>);

struct ByRef<'x, T>(&'x Un<T>);

impl<T> Clone for ByRef<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for ByRef<'_, T> {}

impl<T> Neu<T> for ByRef<'_, T> {
    fn is_match(&self, o: &T) -> bool {
        self.0.is_match(o)
    }
    fn min_length(&self) -> usize {
        self.0.min_length()
    }
}

impl<T: 'static> Held<T> {
    fn with<R>(&self, f: impl FnOnce(&dyn Neu<T>) -> R) -> R {
        let u = self.1.clone();
        match self.0 {
            0 => f(&Arc::new(u)),
            1 => f(&std::rc::Rc::new(u)),
            2 => f(&std::cell::RefCell::new(u)),
            3 => f(&(Box::new(u) as Box<dyn Neu<T>>)),
            4 => f(&std::cell::Cell::new(ByRef(&u))),
            5 => f(&NeuMutex::new(ByRef(&u))),
            6 => f(&(Arc::new(u) as Arc<dyn Neu<T>>)),
            _ => f(&(std::rc::Rc::new(u) as std::rc::Rc<dyn Neu<T>>)),
        }
    }
}

impl<T: 'static> Neu<T> for Held<T> {
    fn is_match(&self, o: &T) -> bool {
        self.with(|u| u.is_match(o))
    }
    fn min_length(&self) -> usize {
        self.with(|u| u.min_length())
    }
}

/// A unit that is made once, inside of another that wants it to be `Copy`.
struct Kept<T, H> {
    h: H,
    _u: Box<Un<T>>,
}

struct Raw<T>(*const Un<T>);

impl<T> Clone for Raw<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Raw<T> {}

impl<T> Neu<T> for Raw<T> {
    fn is_match(&self, o: &T) -> bool {
        // the owner is next to it
        unsafe { &*self.0 }.is_match(o)
    }
    fn min_length(&self) -> usize {
        unsafe { &*self.0 }.min_length()
    }
}

// what is not for several threads is not given to several threads
unsafe impl<T, H> Send for Kept<T, H> {}
unsafe impl<T, H> Sync for Kept<T, H> {}

impl<T, H> Kept<T, H> {
    fn new(u: Un<T>, f: impl FnOnce(Raw<T>) -> H) -> Self {
        let u = Box::new(u);
        Kept { h: f(Raw(&*u)), _u: u }
    }
}

impl<T, H: Neu<T>> Neu<T> for Kept<T, H> {
    fn is_match(&self, o: &T) -> bool {
        self.h.is_match(o)
    }
    fn min_length(&self) -> usize {
        self.h.min_length()
    }
}

macro_rules! units {
    ($t:ty, $conv:expr, $wild:expr, $blank:expr) => {
        impl ItemT for $t {
            fn code(&self) -> u32 {
                *self as u32
            }
            fn of(c: u32) -> $t {
                ($conv)(char::from_u32(c).unwrap_or('?'))
            }
            fn unit(u: &U, id: u32) -> Un<$t> {
                fn f(c: char) -> $t {
                    ($conv)(c)
                }
                match u {
                    U::Ch(c) => Un(Arc::new(f(*c))),
                    U::Eq(c) => Un(Arc::new(neu::equal(f(*c)))),
                    U::Range(a, b) => Un(Arc::new(f(*a)..=f(*b))),
                    U::RangeEx(a, b) => Un(Arc::new(f(*a)..f(*b))),
                    U::Alpha => Un(Arc::new(neu::ascii_alphabetic::<$t>())),
                    U::Digit => Un(Arc::new(neu::ascii_digit::<$t>())),
                    U::Alnum => Un(Arc::new(neu::ascii_alphanumeric::<$t>())),
                    U::Ws => Un(Arc::new(neu::ascii_whitespace::<$t>())),
                    U::Blank => Un(Arc::new($blank)),
                    U::Bounds(k, a, b) => {
                        let (a, b) = (f(*a), f(*b));
                        match k {
                            0 => Un(Arc::new(a..)),
                            1 => Un(Arc::new(..b)),
                            2 => Un(Arc::new(..=b)),
                            3 => Un(Arc::new(..)),
                            4 => Un(Arc::new(neu::range(a..=b))),
                            5 => Un(Arc::new((Bound::Excluded(a), Bound::Excluded(b)))),
                            6 => {
                                let ab: &'static [$t; 2] = Box::leak(Box::new([a, b]));
                                Un(Arc::new(&ab[0]..&ab[1]))
                            }
                            _ => Un(Arc::new(neu::CRange::from((Bound::Included(a), Bound::Included(b))))),
                        }
                    }
                    U::Punct => Un(Arc::new(neu::ascii_punctuation::<$t>())),
                    U::Wild => Un(Arc::new($wild)),
                    U::Never => Un(Arc::new(neu::never::<$t>())),
                    U::Pred(s) => Un(Arc::new(pred::<$t>(id, *s))),
                    U::Arr(a, b) => Un(Arc::new([f(*a), f(*b)])),
                    U::Held(8, u) => match &**u {
                        U::Arr(a, b) => Un(Arc::new(vec![f(*a), f(*b)])),
                        u => Self::unit(u, id),
                    },
                    U::Held(9, u) => match &**u {
                        U::Arr(a, b) => {
                            let ab: &'static [$t] = Box::leak(Box::new([f(*a), f(*b)]));
                            Un(Arc::new(ab))
                        }
                        u => Self::unit(u, id),
                    },
                    U::Held(10, u) => Un(Arc::new(Kept::new(Self::unit(u, id), std::cell::RefCell::new))),
                    U::Held(11, u) => Un(Arc::new(Kept::new(Self::unit(u, id), std::cell::Cell::new))),
                    U::Held(12, u) => Un(Arc::new(Kept::new(Self::unit(u, id), NeuMutex::new))),
                    U::Held(k, u) => Un(Arc::new(Held(*k, Self::unit(u, id)))),
                    U::Not(u) => Un(Arc::new(NeuOp::not(Self::unit(u, id)))),
                    U::Or(l, r) => Un(Arc::new(NeuOp::or(Self::unit(l, id), Self::unit(r, id)))),
                    U::And(l, r) => Un(Arc::new(NeuOp::and(Self::unit(l, id), Self::unit(r, id)))),
                }
            }
        }
    };
}
units!(char, |c: char| c, neu::wild(), neu::whitespace());
units!(u8, |c: char| c as u32 as u8, neu::always::<u8>(), neu::ascii_whitespace::<u8>());

pub trait Lang<'a>: Context<'a, Item: ItemT, Orig<'a>: AsRef<[u8]>> + Match<'a> + Sized + Send + Sync + 'a {
    const TEXT: bool;
    fn bytes(&self) -> &'a [u8];
    fn lit(form: u8, i: u8) -> P<'a, Self>;
    /// reads the span through the library's own extractors
    fn extract(&self, span: &Span, mode: u8) -> Result<(), Error>;
    /// matches with a part before (0), after (1) or both (2), if the context offers that
    fn policy(&mut self, _w: u8, _p: &P<'a, Self>, _b: &P<'a, Self>, _a: &P<'a, Self>) -> Option<Result<Span, Error>> {
        None
    }
    /// with white space after (or before) it
    fn ws(lead: bool, uni: bool, p: P<'a, Self>) -> P<'a, Self>;
    fn code_at(&self, p: usize) -> Option<u32> {
        let b = self.bytes();
        if !Self::TEXT {
            return b.get(p).map(|x| *x as u32);
        }
        std::str::from_utf8(b).ok()?.get(p..)?.chars().next().map(|c| c as u32)
    }
}

macro_rules! policy {
    () => {
        fn policy(&mut self, w: u8, p: &P<'a, Self>, b: &P<'a, Self>, a: &P<'a, Self>) -> Option<Result<Span, Error>> {
            Some(match w {
                0 => self.try_mat_before(p, b),
                1 => self.try_mat_after(p, a),
                _ => self.try_mat_policy(p, b, a),
            })
        }
    };
}

macro_rules! ws {
    (all) => {
        fn ws(lead: bool, uni: bool, p: P<'a, Self>) -> P<'a, Self> {
            match (lead, uni) {
                (false, true) => wrap(CtorOps::<Self>::skip_ws(p), |v| v),
                (false, false) => wrap(CtorOps::<Self>::skip_ascii_ws(p), |v| v),
                (true, true) => wrap(CtorOps::<Self>::skip_ws_leading(p), |v| v),
                (true, false) => wrap(CtorOps::<Self>::skip_ascii_ws_leading(p), |v| v),
            }
        }
    };
    (ascii) => {
        fn ws(lead: bool, _: bool, p: P<'a, Self>) -> P<'a, Self> {
            if lead {
                wrap(CtorOps::<Self>::skip_ascii_ws_leading(p), |v| v)
            } else {
                wrap(CtorOps::<Self>::skip_ascii_ws(p), |v| v)
            }
        }
    };
}

macro_rules! str_lit {
    ($form:expr, $s:expr) => {
        match $form {
            0 => wrap($s, |v| v),
            1 => wrap($s.to_string(), |v| v),
            2 => wrap(literal($s), |v| v),
            3 => wrap(Arc::new($s), |v| v),
            5 => wrap(literal::<String>(Box::leak(Box::new($s.to_string()))), |v| v),
            _ => wrap(Box::leak(Box::new($s.to_string())) as &'static String, |v| v),
        }
    };
}

macro_rules! bytes_lit {
    ($form:expr, $s:expr) => {{
        let s: &'static [u8] = $s.as_bytes();
        match ($form, s.len()) {
            (0, _) => wrap(s, |v| v),
            (1, _) => wrap(s.to_vec(), |v| v),
            (2, _) => wrap(literal(s), |v| v),
            (3, n) if n % 2 == 0 => wrap(Box::leak(Box::new(s.to_vec())) as &'static Vec<u8>, |v| v),
            (3, _) => wrap(Some(s), |v| v),
            (5, 1) => wrap(literal(<&'static [u8; 1]>::try_from(s).unwrap()), |v| v),
            (5, 2) => wrap(literal(<&'static [u8; 2]>::try_from(s).unwrap()), |v| v),
            (5, 8) => wrap(literal(<&'static [u8; 8]>::try_from(s).unwrap()), |v| v),
            (_, 1) => wrap(<[u8; 1]>::try_from(s).unwrap(), |v| v),
            (_, 2) => wrap(<&'static [u8; 2]>::try_from(s).unwrap(), |v| v),
            (_, 3) => wrap(<[u8; 3]>::try_from(s).unwrap(), |v| v),
            _ => wrap(s, |v| v),
        }
    }};
}

impl<'a> Lang<'a> for CharsCtx<'a> {
    const TEXT: bool = true;
    ws!(all);
    policy!();
    fn bytes(&self) -> &'a [u8] {
        self.dat().as_bytes()
    }
    fn lit(form: u8, i: u8) -> P<'a, Self> {
        let s: &'static str = LITS[i as usize];
        str_lit!(form, s)
    }
    fn extract(&self, span: &Span, mode: u8) -> Result<(), Error> {
        extract_str(self, span, mode)
    }
}

impl<'a> Lang<'a> for BytesCtx<'a> {
    const TEXT: bool = false;
    ws!(ascii);
    policy!();
    fn bytes(&self) -> &'a [u8] {
        self.dat()
    }
    fn lit(form: u8, i: u8) -> P<'a, Self> {
        let s: &'static str = LITS[i as usize];
        bytes_lit!(form, s)
    }
    fn extract(&self, span: &Span, mode: u8) -> Result<(), Error> {
        let got = match mode {
            1 => {
                let s = Handler::<Self>::invoke(&mut Extract::<Span>::new(), self, span)?;
                if s != *span {
                    env::bad(Bad::Span, || format!("the span extractor returned {s:?} for {span:?}"));
                }
                return Ok(());
            }
            _ => Extract::<&'a [u8]>::new().invoke(self, span)?,
        };
        check_text(self.bytes(), span, got);
        Ok(())
    }
}

fn check_text(src: &[u8], span: &Span, got: &[u8]) {
    if src.get(span.beg..span.beg + span.len) != Some(got) {
        env::bad(Bad::Span, || format!("the extracted text of {span:?} is not the text of the span"));
    }
}

fn extract_str<'a, C: Lang<'a> + Context<'a, Orig<'a> = &'a str>>(ctx: &C, span: &Span, mode: u8) -> Result<(), Error> {
    let src = ctx.bytes();
    match mode {
        1 => {
            let s = Handler::<C>::invoke(&mut Extract::<Span>::new(), ctx, span)?;
            if s != *span {
                env::bad(Bad::Span, || format!("the span extractor returned {s:?} for {span:?}"));
            }
        }
        2 => check_text(src, span, Extract::<&'a str>::new().invoke(ctx, span)?.as_bytes()),
        _ => check_text(src, span, Handler::<C>::invoke(&mut Extract::<String>::new(), ctx, span)?.as_bytes()),
    }
    Ok(())
}

/// The skip pattern of a skipping context.
#[derive(Clone, Debug)]
pub enum SkipR {
    Ws,
    Cb,
    /// white space and comments
    Com,
}

/// White space, comments to the end of the line, comments in double brackets.
fn blanks<'a, C: Lang<'a>>() -> impl Regex<C> {
    let u = |u: U| C::Item::unit(&u, 0);
    let two = |c: char| NeuIntoRegexOps::<C>::times(u(U::Ch(c)), 2);
    let but = |c: char| NeuIntoRegexOps::<C>::many0(u(U::Not(Box::new(U::Ch(c)))));
    let ws = NeuIntoRegexOps::<C>::many1(u(U::Ws));
    let line = CtorOps::<C>::then(two('-'), but('\n'));
    let block = CtorOps::<C>::enclose(but(']'), two('['), two(']'));
    CtorOps::<C>::repeat(CtorOps::<C>::or(ws, CtorOps::<C>::or(line, block)), 0..)
}

impl<'a, C: Lang<'a>> Regex<C> for SkipR {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        match self {
            SkipR::Ws => NeuIntoRegexOps::<C>::many0(C::Item::unit(&U::Ws, 0)).try_parse(ctx),
            SkipR::Com => blanks::<C>().try_parse(ctx),
            SkipR::Cb => {
                let beg = ctx.offset();
                let b = ctx.bytes();
                let ok = !C::TEXT || b.get(beg).is_none_or(|x| *x & 0xC0 != 0x80);
                let mut q = beg;
                while ok && q < b.len() && b[q].is_ascii_whitespace() {
                    q += 1;
                }
                // it has already moved when it fails
                ctx.set_offset(q);
                env::cb_unit(K::Skip, 0, q as u64)?;
                Ok(Span::new(beg, q - beg))
            }
        }
    }
}


pub type Pol<'a> = PolicyCtx<CharsCtx<'a>, SkipR>;
pub type PolB<'a> = PolicyCtx<BytesCtx<'a>, SkipR>;
pub type PolS<'a> = PolicyCtx<SimCtx<'a>, SkipR>;
pub type UniCtx<'a> = PolicyCtx<CharsCtx<'a>, neu::Many0<CharsCtx<'a>, neu::WhiteSpace, char>>;
pub type WsB<'a> = PolicyCtx<BytesCtx<'a>, neu::Many0<BytesCtx<'a>, neu::AsciiWhiteSpace<u8>, u8>>;
pub type WsCtx<'a> = PolicyCtx<CharsCtx<'a>, neu::Many0<CharsCtx<'a>, neu::AsciiWhiteSpace<char>, char>>;

impl<'a, Rg> Lang<'a> for PolicyCtx<CharsCtx<'a>, Rg>
where
    Rg: Regex<CharsCtx<'a>> + Clone + Send + Sync + 'a,
{
    const TEXT: bool = true;
    ws!(all);
    policy!();
    fn bytes(&self) -> &'a [u8] {
        self.inner().dat().as_bytes()
    }
    fn lit(form: u8, i: u8) -> P<'a, Self> {
        let s: &'static str = LITS[i as usize];
        str_lit!(form, s)
    }
    fn extract(&self, span: &Span, mode: u8) -> Result<(), Error> {
        extract_str(self, span, mode)
    }
}

impl<'a, Rg> Lang<'a> for PolicyCtx<BytesCtx<'a>, Rg>
where
    Rg: Regex<BytesCtx<'a>> + Clone + Send + Sync + 'a,
{
    const TEXT: bool = false;
    ws!(ascii);
    policy!();
    fn bytes(&self) -> &'a [u8] {
        self.inner().dat()
    }
    fn lit(form: u8, i: u8) -> P<'a, Self> {
        let s: &'static str = LITS[i as usize];
        bytes_lit!(form, s)
    }
    fn extract(&self, span: &Span, mode: u8) -> Result<(), Error> {
        let got = match mode {
            1 => {
                Handler::<Self>::invoke(&mut Extract::<Span>::new(), self, span)?;
                return Ok(());
            }
            _ => Extract::<&'a [u8]>::new().invoke(self, span)?,
        };
        check_text(self.bytes(), span, got);
        Ok(())
    }
}

/// A context written by a user: it matches by running the pattern, does not undo
/// anything itself, and its reads can fail.
#[derive(Clone, Debug)]
pub struct SimCtx<'a> {
    dat: &'a str,
    offset: usize,
}

impl<'a> SimCtx<'a> {
    pub fn new(dat: &'a str) -> Self {
        SimCtx { dat, offset: 0 }
    }
    fn read(&self, what: u32, at: usize) -> Result<(), Error> {
        env::cb_unit(K::Read, what, at as u64)
    }
}

impl<'a> Context<'a> for SimCtx<'a> {
    type Orig<'b> = &'b str;
    type Item = char;
    type Iter<'b> = std::str::CharIndices<'b>;

    fn len(&self) -> usize {
        self.dat.len()
    }
    fn offset(&self) -> usize {
        self.offset
    }
    fn set_offset(&mut self, offset: usize) -> &mut Self {
        if offset > self.dat.len() {
            env::bad(Bad::Span, || format!("position set to {offset}, past the end of the input"));
        }
        self.offset = offset;
        self
    }
    fn inc(&mut self, n: usize) -> &mut Self {
        if self.offset + n > self.dat.len() {
            env::bad(Bad::Span, || format!("position moved to {}, past the end of the input", self.offset + n));
        }
        self.offset += n;
        self
    }
    fn dec(&mut self, n: usize) -> &mut Self {
        self.offset -= n;
        self
    }
    fn peek_at(&self, offset: usize) -> Result<Self::Iter<'a>, Error> {
        self.read(0, offset)?;
        Ok(self.dat.get(offset..).ok_or(Error::OutOfBound)?.char_indices())
    }
    fn orig_at(&self, offset: usize) -> Result<Self::Orig<'a>, Error> {
        self.read(1, offset)?;
        self.dat.get(offset..).ok_or(Error::OutOfBound)
    }
    fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
        self.read(2, offset)?;
        offset.checked_add(len).and_then(|e| self.dat.get(offset..e)).ok_or(Error::OutOfBound)
    }
    fn clone_at(&self, offset: usize) -> Result<Self, Error> {
        self.read(3, offset)?;
        self.dat.get(offset..).ok_or(Error::OutOfBound)?;
        Ok(SimCtx { dat: self.dat, offset })
    }
}

impl<'a> Match<'a> for SimCtx<'a> {
    fn try_mat<Pat>(&mut self, pat: &Pat) -> Result<Span, Error>
    where
        Pat: Regex<Self> + ?Sized,
    {
        let beg = self.offset;
        let ret = pat.try_parse(self);
        if ret.is_err() && self.offset != beg {
            let now = self.offset;
            env::bad(Bad::Nested, || format!("a nested pattern failed at {beg} but left the position at {now}"));
        }
        if let Ok(s) = &ret {
            let now = self.offset;
            let (b, l) = (s.beg, s.len);
            let mid_ok = env::with(|e| e.mid_ok);
            let mid = |p: usize| !mid_ok && !self.dat.is_char_boundary(p);
            if b < beg || b.checked_add(l) != Some(now) || now > self.dat.len() || mid(b) || mid(now) {
                env::bad(Bad::Span, || {
                    format!("a nested pattern started at {beg} returned the span {b}+{l} and left the position at {now}")
                });
            }
        }
        ret
    }
}

impl<'a> Lang<'a> for SimCtx<'a> {
    const TEXT: bool = true;
    ws!(all);
    fn bytes(&self) -> &'a [u8] {
        self.dat.as_bytes()
    }
    fn lit(form: u8, i: u8) -> P<'a, Self> {
        let s: &'static str = LITS[i as usize];
        str_lit!(form, s)
    }
    fn extract(&self, span: &Span, mode: u8) -> Result<(), Error> {
        extract_str(self, span, mode)
    }
}

impl<'a> Lang<'a> for PolS<'a> {
    const TEXT: bool = true;
    ws!(all);
    policy!();
    fn bytes(&self) -> &'a [u8] {
        self.inner().dat.as_bytes()
    }
    fn lit(form: u8, i: u8) -> P<'a, Self> {
        let s: &'static str = LITS[i as usize];
        str_lit!(form, s)
    }
    fn extract(&self, span: &Span, mode: u8) -> Result<(), Error> {
        extract_str(self, span, mode)
    }
}

/// The handler of every simulated construction.
pub struct SimH;

impl<'a, C: Lang<'a>> Handler<C> for SimH {
    type Out = V;
    type Error = Error;

    fn invoke(&mut self, ctx: &C, span: &Span) -> Result<V, Error> {
        let src = ctx.bytes();
        let (b, l) = (span.beg, span.len);
        let e = b.saturating_add(l);
        if e > src.len() {
            env::bad(Bad::Span, || format!("a handler was given {b}..{e}, outside the input of {} bytes", src.len()));
            return Err(Error::OutOfBound);
        }
        let (mode, mid_ok) = env::with(|e| (e.handler_mode, e.mid_ok));
        if C::TEXT && !mid_ok {
            let mid = |p: usize| p < src.len() && src[p] & 0xC0 == 0x80;
            if mid(b) || mid(e) {
                env::bad(Bad::Span, || format!("a handler was given {b}..{e}, not on character boundaries"));
                return Err(Error::OutOfBound);
            }
        }
        env::cb_unit(K::Handler, 0, span_key(b, l))?;
        if mode > 0 {
            ctx.extract(span, mode)?;
        }
        let uid = env::with(|e| {
            e.uid += 1;
            e.handled.push((b as u32, l as u32));
            e.uid - 1
        });
        Ok(V::Tok { b: b as u32, l: l as u32, text: text_hash(&src[b..e]), uid })
    }
}
