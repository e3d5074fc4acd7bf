//! Turns a grammar into a real parser, made of the library's own combinators.

use crate::ast::*;
use crate::ctxs::{ItemT, Lang, SimH, Un};
use std::ops::Bound;
use crate::env::{self, K};
use crate::model::span_key;
use crate::tape::mix;
use crate::value::V;
use neure::ctx::CtxGuard;
use neure::ctor::{self, Ctor, DynamicCtorThenBuilderHelper};
use neure::err::Error;
use neure::neu::Condition;
use neure::map::{WithDefaultHelper, select_neq, with_default};
use neure::prelude::*;
use neure::regex::{self, DynamicRegexBuilderHelper};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

pub type P<'a, C> = Arc<dyn Ctor<C, V, SimH> + Send + Sync + 'a>;

/// Passes everything on to the parser inside and brings its result into one shape.
pub struct Conv<X, O> {
    x: X,
    f: fn(O) -> V,
}

// Parsers that must not cross threads are only ever given to one thread.
unsafe impl<X, O> Send for Conv<X, O> {}
unsafe impl<X, O> Sync for Conv<X, O> {}

impl<C, X: Regex<C>, O> Regex<C> for Conv<X, O> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.x.try_parse(ctx)
    }
}

impl<C, X: Ctor<C, O, SimH>, O> Ctor<C, V, SimH> for Conv<X, O> {
    fn construct(&self, ctx: &mut C, h: &mut SimH) -> Result<V, Error> {
        self.x.construct(ctx, h).map(self.f)
    }
}

pub fn wrap<'a, C: 'a, X, O: 'a>(x: X, f: fn(O) -> V) -> P<'a, C>
where
    X: Ctor<C, O, SimH> + 'a,
{
    Arc::new(Conv { x, f })
}

fn same(v: V) -> V {
    v
}
fn pair(v: (V, V)) -> V {
    V::pair(v.0, v.1)
}
fn pair_opt(v: (V, Option<V>)) -> V {
    V::pair(v.0, V::opt(v.1))
}
fn list(v: Vec<V>) -> V {
    V::List(v)
}
fn arr<const N: usize>(v: [Option<V>; N]) -> V {
    V::List(v.into_iter().map(V::opt).collect())
}
fn tag(v: (V, Tag)) -> V {
    V::Tag(v.1.0, Box::new(v.0))
}
fn coll<const T: usize>(v: Coll<T>) -> V {
    V::List(v.0)
}

/// The value attached to an alternative.
#[derive(Debug)]
pub struct Tag(pub u32);

impl Clone for Tag {
    fn clone(&self) -> Self {
        env::cb(K::TagClone, self.0, 0);
        Tag(self.0)
    }
}

/// A collection that takes at most T items. 0: all, 100: none, 101: all, and it asks again after the end.
pub struct Coll<const T: usize>(Vec<V>);

impl<const T: usize> FromIterator<V> for Coll<T> {
    fn from_iter<I: IntoIterator<Item = V>>(iter: I) -> Self {
        let mut r = vec![];
        let mut iter = iter.into_iter();
        if T == 100 {
            return Coll(r);
        }
        while let Some(v) = iter.next() {
            env::cb(K::Collect, u32::MAX, 0);
            r.push(v);
            if T > 0 && T < 100 && r.len() == T {
                break;
            }
        }
        if T == 101 {
            for _ in 0..2 {
                r.extend(iter.next());
            }
        }
        Coll(r)
    }
}

/// A copyable parser.
pub struct ByRef<'x, 'a, C>(&'x P<'a, C>);

impl<C> Clone for ByRef<'_, '_, C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C> Copy for ByRef<'_, '_, C> {}

impl<C> Regex<C> for ByRef<'_, '_, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<C> Ctor<C, V, SimH> for ByRef<'_, '_, C> {
    fn construct(&self, ctx: &mut C, h: &mut SimH) -> Result<V, Error> {
        self.0.construct(ctx, h)
    }
}

/// Holders that only borrow are made at parse time.
struct Borrow<'a, C> {
    p: P<'a, C>,
    how: &'static str,
}

impl<'a, C: Lang<'a>> Regex<C> for Borrow<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        match self.how {
            "into_cell" => ByRef(&self.p).into_cell().try_parse(ctx),
            "into_cell_regex" => ByRef(&self.p).into_cell_regex().try_parse(ctx),
            "as_dyn_ctor" => CtorRefAsDynCtor::<C, V, SimH>::as_dyn_ctor(&self.p).try_parse(ctx),
            "as_ctor" => self.p.as_ctor().try_parse(ctx),
            _ => self.p.as_dyn_regex().try_parse(ctx),
        }
    }
}
impl<'a, C: Lang<'a>> Ctor<C, V, SimH> for Borrow<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut SimH) -> Result<V, Error> {
        match self.how {
            "into_cell" => ByRef(&self.p).into_cell().construct(ctx, h),
            "into_cell_regex" => ByRef(&self.p).into_cell_regex().construct(ctx, h),
            "as_dyn_ctor" => CtorRefAsDynCtor::<C, V, SimH>::as_dyn_ctor(&self.p).construct(ctx, h),
            "as_ctor" => RegexRefAsCtor::<C>::as_ctor(&self.p).construct(ctx, h),
            _ => RegexRefAsDynRegex::<C>::as_dyn_regex(&self.p).construct(ctx, h),
        }
    }
}

/// A slice of alternatives together with its storage.
struct OwnSlice<'a, C> {
    v: Vec<P<'a, C>>,
    kv: Vec<(P<'a, C>, Tag)>,
    ltm: bool,
}

impl<'a, C: Lang<'a>> Regex<C> for OwnSlice<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        match (self.kv.is_empty(), self.ltm) {
            (true, false) => regex::slice(&self.v).try_parse(ctx),
            (true, true) => regex::slice_ltm(&self.v).try_parse(ctx),
            (false, false) => regex::pair_slice(&self.kv).try_parse(ctx),
            (false, true) => regex::pair_slice_ltm(&self.kv).try_parse(ctx),
        }
    }
}
impl<'a, C: Lang<'a>> Ctor<C, V, SimH> for OwnSlice<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut SimH) -> Result<V, Error> {
        match (self.kv.is_empty(), self.ltm) {
            (true, false) => regex::slice(&self.v).construct(ctx, h),
            (true, true) => regex::slice_ltm(&self.v).construct(ctx, h),
            (false, false) => regex::pair_slice(&self.kv).construct(ctx, h).map(tag),
            (false, true) => regex::pair_slice_ltm(&self.kv).construct(ctx, h).map(tag),
        }
    }
}

/// A user closure as a condition.
fn clo_cond<'a, C: Lang<'a>>(
    id: u32, set: u32,
) -> impl Fn(&C, &(usize, C::Item)) -> Result<bool, Error> + Clone + 'a {
    move |ctx: &C, item: &(usize, C::Item)| {
        let at = ctx.offset() + item.0;
        env::cb_bool(K::Cond, id, at as u64, in_set(set, item.1.code()))
    }
}

type RecP<'a, C> = neure::regex::RecursiveCtor<'a, C, V, SimH>;

pub struct Builder<'a, C> {
    recs: Vec<(u32, P<'a, C>)>,
    /// recursive definitions to be taken apart afterwards
    loops: Vec<RecP<'a, C>>,
    /// use a clone of every combinator instead of the original
    pub cl: bool,
    pub sync_rec: bool,
    /// 0: as in the grammar, otherwise an extra holder around every node
    pub extra_hold: u32,
    _m: PhantomData<&'a C>,
}

impl<C> Drop for Builder<'_, C> {
    fn drop(&mut self) {
        for l in self.loops.drain(..) {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = None;
            } else {
                env::bad(env::Bad::Other, || "a recursive parser is still borrowed after it returned".into());
            }
        }
    }
}

/// A parser together with what keeps it alive.
pub struct Built<'a, C> {
    pub p: P<'a, C>,
    _b: Builder<'a, C>,
}

macro_rules! by_mn {
    ($i:expr, $m:ident, $n:ident => $e:expr) => {
        match $i {
            0 => { const $m: usize = 0; const $n: usize = 1; $e }
            1 => { const $m: usize = 0; const $n: usize = 2; $e }
            2 => { const $m: usize = 1; const $n: usize = 1; $e }
            3 => { const $m: usize = 1; const $n: usize = 2; $e }
            4 => { const $m: usize = 1; const $n: usize = 3; $e }
            5 => { const $m: usize = 2; const $n: usize = 2; $e }
            6 => { const $m: usize = 2; const $n: usize = 3; $e }
            7 => { const $m: usize = 0; const $n: usize = 9; $e }
            _ => { const $m: usize = 3; const $n: usize = 20; $e }
        }
    };
}

/// One that is built and then changed by its setters.
macro_rules! change {
    ($x:expr, $($set:ident($v:expr)),+) => {{
        let mut x = $x;
        $(x.$set($v);)+
        x
    }};
}

macro_rules! by_len {
    ($v:expr, $a:ident => $e:expr) => {{
        let v = $v;
        match v.len() {
            1 => { let Ok($a) = <[_; 1]>::try_from(v) else { unreachable!() }; $e }
            2 => { let Ok($a) = <[_; 2]>::try_from(v) else { unreachable!() }; $e }
            3 => { let Ok($a) = <[_; 3]>::try_from(v) else { unreachable!() }; $e }
            4 => { let Ok($a) = <[_; 4]>::try_from(v) else { unreachable!() }; $e }
            70 => { let Ok($a) = <[_; 70]>::try_from(v) else { unreachable!() }; $e }
            300 => { let Ok($a) = <[_; 300]>::try_from(v) else { unreachable!() }; $e }
            _ => { let Ok($a) = <[_; 7]>::try_from(v) else { unreachable!() }; $e }
        }
    }};
}

pub fn build<'a, C: Lang<'a>>(n: &Node) -> Built<'a, C> {
    build_with(n, |_| {})
}

pub fn build_with<'a, C: Lang<'a>>(n: &Node, f: impl FnOnce(&mut Builder<'a, C>)) -> Built<'a, C> {
    let mut b =
        Builder { recs: vec![], loops: vec![], cl: false, sync_rec: false, extra_hold: 0, _m: PhantomData };
    f(&mut b);
    let p = b.node(n);
    Built { p, _b: b }
}

pub fn as_range(r: &Rng) -> neure::neu::CRange<usize> {
    match r {
        Rng::Exact(n) => (*n).into(),
        Rng::Incl(a, b) => (*a..=*b).into(),
        Rng::Excl(a, b) => (*a..*b).into(),
        Rng::From(a) => (*a..).into(),
        Rng::ToIncl(b) => (..=*b).into(),
        Rng::To(b) => (..*b).into(),
        Rng::Full => (..).into(),
        Rng::ExIncl(a, b) => (Bound::Excluded(*a), Bound::Included(*b)).into(),
        Rng::ExExcl(a, b) => (Bound::Excluded(*a), Bound::Excluded(*b)).into(),
        Rng::ExFrom(a) => (Bound::Excluded(*a), Bound::Unbounded).into(),
    }
}

impl<'a, C: Lang<'a>> Builder<'a, C> {
    /// Takes the combinator, or a clone of it.
    fn fin<X, O: 'a>(&self, x: X, f: fn(O) -> V) -> P<'a, C>
    where
        X: Ctor<C, O, SimH> + Clone + 'a,
    {
        if self.cl { wrap(x.clone(), f) } else { wrap(x, f) }
    }

    fn nodes(&mut self, v: &[Node]) -> Vec<P<'a, C>> {
        v.iter().map(|n| self.node(n)).collect()
    }

    pub fn node(&mut self, n: &Node) -> P<'a, C> {
        let p = self.node_(n);
        if self.extra_hold == 0 {
            return p;
        }
        let x = crate::tape::mix(self.extra_hold as u64 * 1000 + n.id as u64) as usize;
        // the lock is not re-entrant, so it may not be put around what recursion comes back to
        let h = x % HOLD_PLAIN.len();
        if h == 5 { p } else { self.hold(h as u8, p) }
    }

    fn hold(&mut self, h: u8, p: P<'a, C>) -> P<'a, C> {
        use neure::ctor::Adapter;
        match HOLD_PLAIN[h as usize] {
            "into_box" => self.fin(CtorIntoHelper::<C>::into_box(p), same),
            "into_arc" => self.fin(CtorIntoHelper::<C>::into_arc(p), same),
            "into_rc" => self.fin(CtorIntoHelper::<C>::into_rc(p), same),
            "into_refcell" => self.fin(CtorIntoHelper::<C>::into_refcell(p), same),
            "into_mutex" => wrap(CtorIntoHelper::<C>::into_mutex(p), same),
            "into_dyn" => wrap(CtorIntoHelper::<C>::into_dyn::<V, SimH>(p), same),
            "into_dyn_arc" => self.fin(CtorIntoHelper::<C>::into_dyn_arc::<V, SimH>(p), same),
            "into_dyn_rc" => self.fin(CtorIntoHelper::<C>::into_dyn_rc::<V, SimH>(p), same),
            "dyn_box_sync" => wrap(
                Adapter::<C, Box<dyn Ctor<C, V, SimH> + Send + Sync + 'a>>::dyn_box_sync(p),
                same,
            ),
            "dyn_arc_sync" => self.fin(
                Adapter::<C, Arc<dyn Ctor<C, V, SimH> + Send + Sync + 'a>>::dyn_arc_sync(p),
                same,
            ),
            "option" => self.fin(Some(p), same),
            "dyn_box_send" => wrap(Adapter::<C, Box<dyn Ctor<C, V, SimH> + Send + 'a>>::dyn_box_send(p), same),
            "dyn_arc_send" => {
                self.fin(Adapter::<C, Arc<dyn Ctor<C, V, SimH> + Send + 'a>>::dyn_arc_send(p), same)
            }
            "dyn_rc_send" => self.fin(Adapter::<C, Rc<dyn Ctor<C, V, SimH> + Send + 'a>>::dyn_rc_send(p), same),
            "in parts" => {
                let none: P<'a, C> = wrap(regex::fail(), same);
                let mut x = Adapter::<C, _>::from(none.clone()).with_inner(none);
                x.set_inner(p);
                let p = x.into_inner();
                self.fin(Adapter::<C, _>::from(p), same)
            }
            how => wrap(Borrow { p, how }, same),
        }
    }

    fn rx_hold(&mut self, h: u8, p: P<'a, C>) -> P<'a, C> {
        use neure::regex::Adapter;
        match RX_HOLD[h as usize] {
            "into_ctor" => self.fin(RegexIntoHelper::<C>::into_ctor(p), same),
            "into_box_regex" => self.fin(RegexIntoHelper::<C>::into_box_regex(p), same),
            "into_arc_regex" => self.fin(RegexIntoHelper::<C>::into_arc_regex(p), same),
            "into_rc_regex" => self.fin(RegexIntoHelper::<C>::into_rc_regex(p), same),
            "into_refcell_regex" => self.fin(RegexIntoHelper::<C>::into_refcell_regex(p), same),
            "into_mutex_regex" => wrap(RegexIntoHelper::<C>::into_mutex_regex(p), same),
            "into_dyn_regex" => wrap(RegexIntoHelper::<C>::into_dyn_regex(p), same),
            "into_dyn_arc_regex" => self.fin(RegexIntoHelper::<C>::into_dyn_arc_regex(p), same),
            "into_dyn_rc_regex" => self.fin(RegexIntoHelper::<C>::into_dyn_rc_regex(p), same),
            "dyn_box_sync" => wrap(
                Adapter::<C, Box<dyn Regex<C> + Send + Sync + 'a>>::dyn_box_sync(p),
                same,
            ),
            "dyn_arc_sync" => {
                self.fin(Adapter::<C, Arc<dyn Regex<C> + Send + Sync + 'a>>::dyn_arc_sync(p), same)
            }
            "dyn_box_send" => wrap(Adapter::<C, Box<dyn Regex<C> + Send + 'a>>::dyn_box_send(p), same),
            "dyn_arc_send" => self.fin(Adapter::<C, Arc<dyn Regex<C> + Send + 'a>>::dyn_arc_send(p), same),
            "dyn_rc_send" => self.fin(Adapter::<C, Rc<dyn Regex<C> + Send + 'a>>::dyn_rc_send(p), same),
            "in parts" => {
                let none: P<'a, C> = wrap(regex::fail(), same);
                let mut x = Adapter::<C, _>::from(none.clone()).with_inner(none);
                x.set_inner(p);
                let p = x.into_inner();
                self.fin(Adapter::<C, _>::from(p), same)
            }
            how => wrap(Borrow { p, how }, same),
        }
    }

    fn unit(&mut self, id: u32, u: &U, f: &Form, c: &Cond) -> P<'a, C> {
        let un: Un<C::Item> = C::Item::unit(u, id);
        let other: Un<C::Item> = C::Item::unit(&U::Never, id);
        let how = crate::tape::mix(id as u64 + 99) % 5;
        macro_rules! fin {
            ($x:expr) => {{
                let x = $x;
                match c {
                    Cond::None => self.fin(x, same),
                    Cond::Clo(set) => self.fin(x.set_cond(clo_cond::<C>(id, *set)), same),
                    Cond::Rx(n) => {
                        let n = self.node(n);
                        self.fin(x.set_cond(neure::neu::regex_cond(n)), same)
                    }
                }
            }};
        }
        match f {
            // by the functions, too, and changed afterwards
            Form::Once if how == 0 => fin!(regex::once::<C, _>(un)),
            Form::Opt if how == 0 => fin!(regex::opt::<C, _>(un)),
            Form::Many0 if how == 0 => fin!(regex::many0::<C, _>(un)),
            Form::Many1 if how == 0 => fin!(regex::many1::<C, _>(un)),
            Form::Once if how == 1 => fin!(change!(NeuIntoRegexOps::<C>::once(other), set_unit(un))),
            Form::Opt if how == 1 => fin!(change!(NeuIntoRegexOps::<C>::opt(other), set_unit(un))),
            Form::Many0 if how == 1 => fin!(change!(NeuIntoRegexOps::<C>::many0(other), set_unit(un))),
            Form::Many1 if how == 1 => fin!(change!(NeuIntoRegexOps::<C>::many1(other), set_unit(un))),
            Form::Times(r) if how == 1 => {
                fin!(change!(NeuIntoRegexOps::<C>::times(other, 1..2), set_unit(un), set_range(as_range(r))))
            }
            Form::Then(r) if how == 1 => {
                let r: Un<C::Item> = C::Item::unit(r, id);
                fin!(change!(NeuIntoRegexOps::<C>::then(other.clone(), other), set_left(un), set_right(r)))
            }
            Form::Between(i) if how == 0 => match c {
                Cond::Clo(set) => {
                    let f = clo_cond::<C>(id, *set);
                    by_mn!(*i, A, B => self.fin(regex::count_if::<A, B, C, _, _>(un, f), same))
                }
                _ => by_mn!(*i, A, B => fin!(regex::count::<A, B, C, _>(un))),
            },
            Form::Between(2) if how == 1 => fin!(NeuIntoRegexOps::<C>::count::<1>(un)),
            Form::Between(5) if how == 1 => fin!(NeuIntoRegexOps::<C>::count::<2>(un)),
            Form::Between(0) if how == 1 => fin!(NeuIntoRegexOps::<C>::at_most::<1>(un)),
            Form::Between(1) if how == 1 => fin!(NeuIntoRegexOps::<C>::at_most::<2>(un)),
            Form::Between(7) if how == 1 => fin!(NeuIntoRegexOps::<C>::at_most::<9>(un)),
            Form::Once => fin!(NeuIntoRegexOps::<C>::once(un)),
            Form::Opt => fin!(NeuIntoRegexOps::<C>::opt(un)),
            Form::Many0 => fin!(NeuIntoRegexOps::<C>::many0(un)),
            Form::Many1 => fin!(NeuIntoRegexOps::<C>::many1(un)),
            Form::Between(i) => by_mn!(*i, A, B => fin!(NeuIntoRegexOps::<C>::between::<A, B>(un))),
            Form::AtLeast(0) => fin!(NeuIntoRegexOps::<C>::at_least::<0>(un)),
            Form::AtLeast(1) => fin!(NeuIntoRegexOps::<C>::at_least::<1>(un)),
            Form::AtLeast(_) => fin!(NeuIntoRegexOps::<C>::at_least::<2>(un)),
            Form::Times(r) => fin!(NeuIntoRegexOps::<C>::times(un, as_range(r))),
            Form::Then(r) => {
                let r: Un<C::Item> = C::Item::unit(r, id);
                fin!(NeuIntoRegexOps::<C>::then(un, r))
            }
        }
    }

    fn node_(&mut self, n: &Node) -> P<'a, C> {
        let id = n.id;
        // some are built otherwise first, and then changed
        let again = crate::tape::mix(id as u64 + 77) % 5 == 0;
        match &n.k {
            N::Unit { u, f, cond } => self.unit(id, u, f, cond),
            N::Lit { form, i } => C::lit(*form, *i),
            N::Consume(k) => self.fin(regex::consume(*k as usize), same),
            N::ConsumeAll => self.fin(regex::consume_all(), same),
            N::Start => self.fin(regex::start(), same),
            N::End => self.fin(regex::end(), same),
            N::Empty if again => wrap(RegexIntoHelper::<C>::into_ctor(()), same),
            N::Empty => self.fin(regex::empty(), same),
            N::Fail => self.fin(regex::fail(), same),
            N::Clo { set, min, max, dirty } => {
                let (set, min, max, dirty) = (*set, *min, *max, *dirty);
                wrap(
                    move |ctx: &mut C| -> Result<Span, Error> {
                        let beg = ctx.offset();
                        let (mut k, mut q) = (0, beg);
                        // reads the input directly, so that context faults only hit the library
                        while k < max {
                            match ctx.code_at(q) {
                                Some(c) if in_set(set, c) => {
                                    q += if C::TEXT { char::from_u32(c).map_or(1, |c| c.len_utf8()) } else { 1 }
                                }
                                _ => break,
                            }
                            k += 1;
                        }
                        // some users write theirs with the library's guard
                        if !dirty && id % 3 != 0 {
                            let mut g = CtxGuard::new(ctx);
                            let span = g.inc(q - beg);
                            assert!(g.beg() == beg && g.end() == q && g.len() >= q && (g.len() == 0) == g.is_empty());
                            let r = env::cb_unit(K::Clo, id, beg as u64)
                                .and_then(|_| if k < min { Err(Error::Uid(100 + id as usize)) } else { Ok(span) });
                            if id % 3 == 1 {
                                return g.process_ret(r);
                            }
                            if r.is_err() {
                                g.reset();
                            }
                            return r;
                        }
                        // some look back first, and leave it at that when they fail
                        let back = dirty && id % 3 == 2;
                        if back {
                            let mut at = beg - beg.min(1 + id as usize % 4);
                            while C::TEXT && at > 0 && ctx.code_at(at).is_none() {
                                at -= 1;
                            }
                            ctx.set_offset(at);
                        } else if dirty {
                            ctx.inc(q - beg);
                        }
                        env::cb_unit(K::Clo, id, beg as u64)?;
                        if k < min {
                            return Err(Error::Uid(100 + id as usize));
                        }
                        if back {
                            ctx.set_offset(q);
                        } else if !dirty {
                            ctx.inc(q - beg);
                        }
                        Ok(Span::new(beg, q - beg))
                    },
                    same,
                )
            }
            N::Assert(v, style, a) => {
                let a = self.node(a);
                match (*v, *style) {
                    (v, 1) if again => self.fin(change!(regex::assert(a, !v), set_value(v)), same),
                    (v, 1) => self.fin(regex::assert(a, v), same),
                    (true, _) => self.fin(regex::peek(a), same),
                    (false, 2) => self.fin(!a.into_ctor(), same),
                    (false, _) => self.fin(regex::not(a), same),
                }
            }
            N::RxWrap(h, a) => {
                let p = self.node(a);
                self.rx_hold(*h, p)
            }
            N::Around(w, a, b, c) => {
                let (a, b, c, w) = (self.node(a), self.node(b), self.node(c), *w);
                wrap(
                    move |ctx: &mut C| {
                        if let Some(r) = ctx.policy(w, &a, &b, &c) {
                            return r;
                        }
                        // a context without such a match: by hand
                        let mut g = CtxGuard::new(ctx);
                        if w != 1 {
                            let r = b.try_parse(g.ctx());
                            g.process_ret(r)?;
                        }
                        let r = a.try_parse(g.ctx());
                        let span = g.process_ret(r)?;
                        if w != 0 {
                            let r = c.try_parse(g.ctx());
                            g.process_ret(r)?;
                        }
                        Ok(span)
                    },
                    same,
                )
            }
            N::RxBuilder(a, v) => {
                let a = self.node(a);
                let v = self.nodes(v);
                wrap(
                    DynamicRegexBuilderHelper::<C>::into_regex_builder(a, move |_: &mut C, span: &Span| {
                        let key = span_key(span.beg, span.len);
                        env::cb_unit(K::Builder, id, key)?;
                        Ok(v[key as usize % v.len()].clone())
                    }),
                    same,
                )
            }
            N::Pat(a) => {
                let a = self.node(a);
                self.fin(CtorOps::<C>::pat(a), same)
            }
            N::Then(a, b) => {
                let (a, b) = (self.node(a), self.node(b));
                self.fin(if again { change!(CtorOps::<C>::then(b.clone(), a.clone()), set_left(a), set_right(b)) } else { CtorOps::<C>::then(a, b) }, pair)
            }
            N::IfThen(a, t, b) => {
                let (a, t, b) = (self.node(a), self.node(t), self.node(b));
                self.fin(if again { change!(CtorOps::<C>::if_then(t.clone(), b.clone(), a.clone()), set_left(a), set_test(t), set_right(b)) } else { CtorOps::<C>::if_then(a, t, b) }, pair_opt)
            }
            N::Prefix(a, p) => {
                let (a, p) = (self.node(a), self.node(p));
                self.fin(if again { change!(CtorOps::<C>::prefix(p.clone(), a.clone()), set_pat(a), set_prefix(p)) } else { CtorOps::<C>::prefix(a, p) }, same)
            }
            N::Suffix(a, s) => {
                let (a, s) = (self.node(a), self.node(s));
                self.fin(if again { change!(CtorOps::<C>::suffix(s.clone(), a.clone()), set_pat(a), set_suffix(s)) } else { CtorOps::<C>::suffix(a, s) }, same)
            }
            N::Enclose(a, o, c) => {
                let (a, o, c) = (self.node(a), self.node(o), self.node(c));
                self.fin(if again { change!(CtorOps::<C>::enclose(o.clone(), c.clone(), a.clone()), set_pat(a), set_open(o), set_close(c)) } else { CtorOps::<C>::enclose(a, o, c) }, same)
            }
            N::SepOnce(a, s, b) => {
                let (a, s, b) = (self.node(a), self.node(s), self.node(b));
                self.fin(if again { change!(CtorOps::<C>::sep_once(s.clone(), b.clone(), a.clone()), set_left(a), set_sep(s), set_right(b)) } else { CtorOps::<C>::sep_once(a, s, b) }, pair)
            }
            N::Sel(w, inner) => match &inner.k {
                N::Then(a, b) => {
                    let (a, b) = (self.node(a), self.node(b));
                    let x = if again { change!(CtorOps::<C>::then(b.clone(), a.clone()), set_left(a), set_right(b)) } else { CtorOps::<C>::then(a, b) };
                    match w {
                        0 => self.fin(x._0::<(V, V)>(), same),
                        1 if again => self.fin(x._0::<(V, V)>().map_to(neure::map::select1()), same),
                        1 => self.fin(x._1::<(V, V)>(), same),
                        3 => self.fin(CtorOps::<C>::try_map::<_, (V, V)>(x, select_neq()), pair),
                        _ => self.fin(x._eq::<V, V>(), pair),
                    }
                }
                N::SepOnce(a, s, b) => {
                    let (a, s, b) = (self.node(a), self.node(s), self.node(b));
                    let x = if again { change!(CtorOps::<C>::sep_once(s.clone(), b.clone(), a.clone()), set_left(a), set_sep(s), set_right(b)) } else { CtorOps::<C>::sep_once(a, s, b) };
                    match w {
                        0 => self.fin(x._0::<(V, V)>(), same),
                        1 if again => self.fin(x._0::<(V, V)>().map_to(neure::map::select1()), same),
                        1 => self.fin(x._1::<(V, V)>(), same),
                        3 => self.fin(CtorOps::<C>::try_map::<_, (V, V)>(x, select_neq()), pair),
                        _ => self.fin(x._eq::<V, V>(), pair),
                    }
                }
                N::IfThen(a, t, b) => {
                    let (a, t, b) = (self.node(a), self.node(t), self.node(b));
                    let x = if again { change!(CtorOps::<C>::if_then(t.clone(), b.clone(), a.clone()), set_left(a), set_test(t), set_right(b)) } else { CtorOps::<C>::if_then(a, t, b) };
                    match w {
                        0 => self.fin(x._0::<(V, Option<V>)>(), same),
                        1 => self.fin(x._1::<(V, Option<V>)>(), V::opt),
                        3 => self.fin(CtorOps::<C>::try_map::<_, (V, Option<V>)>(x, select_neq()), pair_opt),
                        _ => self.fin(x._eq::<V, Option<V>>(), pair_opt),
                    }
                }
                N::DynThen(a, v) => {
                    let x = self.dyn_then(inner.id, a, v);
                    match w {
                        0 => self.fin(x._0::<(V, V)>(), same),
                        1 if again => self.fin(x._0::<(V, V)>().map_to(neure::map::select1()), same),
                        1 => self.fin(x._1::<(V, V)>(), same),
                        3 => self.fin(CtorOps::<C>::try_map::<_, (V, V)>(x, select_neq()), pair),
                        _ => self.fin(x._eq::<V, V>(), pair),
                    }
                }
                _ => unreachable!(),
            },
            N::DynThen(a, v) => {
                let x = self.dyn_then(id, a, v);
                self.fin(x, pair)
            }
            N::Sep { item, sep, skip, min } => {
                let (a, s) = (self.node(item), self.node(sep));
                if again {
                    let mut x = CtorOps::<C>::sep(s.clone(), a.clone()).with_skip(!*skip).at_least(9).with_capacity(2);
                    x.set_pat(a).set_sep(s).set_skip(*skip).set_min(*min as usize).set_capacity(id as usize % 5);
                    return self.fin(x, list);
                }
                let x = CtorOps::<C>::sep(a, s);
                // the documented defaults are used as they are
                let x = if *skip { x } else { x.with_skip(false) };
                let x = if *min == 1 { x } else { x.at_least(*min as usize) };
                let x = if id % 2 == 0 { x.with_capacity(id as usize % 5) } else { x };
                self.fin(x, list)
            }
            N::Sep2 { item, sep, skip, mn } => {
                let (a, s) = (self.node(item), self.node(sep));
                by_mn!(*mn, A, B => {
                    if again {
                        let mut x = CtorOps::<C>::sep2::<_, A, B>(s.clone(), a.clone()).with_skip(!*skip);
                        x.set_pat(a).set_sep(s).set_skip(*skip);
                        return self.fin(x, arr::<B>);
                    }
                    let x = CtorOps::<C>::sep2::<_, A, B>(a, s);
                    let x = if *skip { x } else { x.with_skip(false) };
                    self.fin(x, arr::<B>)
                })
            }
            N::SepCollect { item, sep, skip, min, take } => {
                let (a, s) = (self.node(item), self.node(sep));
                macro_rules! go {
                    ($t:literal) => {{
                        if again {
                            let mut x = CtorOps::<C>::sep_collect::<_, V, Coll<$t>>(s.clone(), a.clone())
                                .with_skip(!*skip)
                                .at_least(9);
                            x.set_pat(a).set_sep(s).set_skip(*skip).set_min(*min as usize);
                            return self.fin(x, coll::<$t>);
                        }
                        let x = CtorOps::<C>::sep_collect::<_, V, Coll<$t>>(a, s);
                        let x = if *skip { x } else { x.with_skip(false) };
                        let x = if *min == 1 { x } else { x.at_least(*min as usize) };
                        self.fin(x, coll::<$t>)
                    }};
                }
                match take {
                    0 => go!(0),
                    1 => go!(1),
                    2 => go!(2),
                    3 => go!(3),
                    100 => go!(100),
                    101 => go!(101),
                    _ => go!(12),
                }
            }
            N::Collect { item, min, take } => {
                let a = self.node(item);
                macro_rules! go {
                    ($t:literal) => {{
                        if again {
                            let mut x = CtorOps::<C>::collect::<V, Coll<$t>>(self.fin(regex::consume(9), same)).at_least(9);
                            x.set_pat(a).set_min(*min as usize);
                            return self.fin(x, coll::<$t>);
                        }
                        let x = CtorOps::<C>::collect::<V, Coll<$t>>(a).at_least(*min as usize);
                        self.fin(x, coll::<$t>)
                    }};
                }
                match take {
                    0 => go!(0),
                    1 => go!(1),
                    2 => go!(2),
                    3 => go!(3),
                    100 => go!(100),
                    101 => go!(101),
                    _ => go!(12),
                }
            }
            N::Repeat(a, r) => {
                let a = self.node(a);
                if again {
                    let mut x = CtorOps::<C>::repeat(self.fin(regex::consume(9), same), 2..3);
                    x.set_pat(a).set_range(as_range(r)).set_capacity(id as usize % 5);
                    return self.fin(x, list);
                }
                self.fin(CtorOps::<C>::repeat(a, as_range(r)), list)
            }
            N::Repeat2(a, i) => {
                let a = self.node(a);
                by_mn!(*i, A, B => self.fin(CtorOps::<C>::repeat2::<A, B>(a), arr::<B>))
            }
            N::Or(a, b) => {
                let (a, b) = (self.node(a), self.node(b));
                self.fin(if again { change!(CtorOps::<C>::or(b.clone(), a.clone()), set_left(a), set_right(b)) } else { CtorOps::<C>::or(a, b) }, same)
            }
            N::Longest(a, b) => {
                let (a, b) = (self.node(a), self.node(b));
                self.fin(if again { change!(CtorOps::<C>::longest(b.clone(), a.clone()), set_left(a), set_right(b)) } else { CtorOps::<C>::longest(a, b) }, same)
            }
            N::Alts(k, ltm, v) => {
                let v = self.nodes(v);
                match (k, ltm) {
                    (0, l) if again => self.fin(regex::vector(v).with_longest(!*l).with_longest(*l), same),
                    (1, l) if again => by_len!(v, a => self.fin(change!(regex::array(a), set_longest(*l)), same)),
                    (0, false) => self.fin(regex::vector(v), same),
                    (0, true) => self.fin(regex::vector_ltm(v), same),
                    (1, false) => by_len!(v, a => self.fin(regex::array(a), same)),
                    (1, true) => by_len!(v, a => self.fin(regex::array_ltm(a), same)),
                    _ => wrap(OwnSlice { v, kv: vec![], ltm: *ltm }, same),
                }
            }
            N::Pairs(k, ltm, v) => {
                let kv: Vec<(P<'a, C>, Tag)> =
                    self.nodes(v).into_iter().enumerate().map(|(i, p)| (p, Tag(i as u32))).collect();
                match (k, ltm) {
                    (0, l) if again => self.fin(change!(regex::pair_vector(kv), set_longest(*l)), tag),
                    (1, l) if again => by_len!(kv, a => self.fin(regex::pair_array(a).with_longest(!*l).with_longest(*l), tag)),
                    (0, false) => self.fin(regex::pair_vector(kv), tag),
                    (0, true) => self.fin(regex::pair_vector_ltm(kv), tag),
                    (1, false) => by_len!(kv, a => self.fin(regex::pair_array(a), tag)),
                    (1, true) => by_len!(kv, a => self.fin(regex::pair_array_ltm(a), tag)),
                    _ => wrap(OwnSlice { v: vec![], kv, ltm: *ltm }, same),
                }
            }
            N::Opt(a) => {
                let a = self.node(a);
                self.fin(if again { change!(CtorOps::<C>::opt(self.fin(regex::consume(9), same)), set_pat(a)) } else { CtorOps::<C>::opt(a) }, V::opt)
            }
            N::Branch { set, yes, no, free } => {
                let (a, b) = (self.node(yes), self.node(no));
                let set = *set;
                let test = move |ctx: &C| -> Result<bool, Error> {
                    let at = ctx.offset();
                    env::cb_bool(K::Test, id, at as u64, ctx.code_at(at).is_some_and(|c| in_set(set, c)))
                };
                if *free {
                    self.fin(ctor::branch(test, a, b), same)
                } else {
                    self.fin(CtorOps::<C>::if_else(a, test, b), same)
                }
            }
            N::Ws { lead, uni, a } => {
                let a = self.node(a);
                C::ws(*lead, *uni, a)
            }
            N::Map(a, kind) => {
                let a = self.node(a);
                if *kind > 0 {
                    let f = move |v: V| -> Result<V, Error> {
                        let h = v.hash();
                        env::with(|e| e.mapped.push((id, h)));
                        env::cb_unit(K::Mapper, id, h)?;
                        Ok(V::Map(id, Box::new(v)))
                    };
                    if *kind == 2 {
                        let none = move || V::Tag(id, Box::new(V::opt(None)));
                        return if again {
                            self.fin(CtorOps::<C>::try_map::<_, V>(a, with_default(none, f)), same)
                        } else {
                            self.fin(CtorOps::<C>::try_map::<_, V>(a, f.with_default(none)), same)
                        };
                    }
                    if again {
                        let never: fn(V) -> Result<V, Error> = |_| Err(Error::Uid(7));
                        let x = CtorOps::<C>::try_map::<_, V>(self.fin(regex::consume(9), same), never);
                        return self.fin(change!(x.map_to(f), set_pat(a)), same);
                    }
                    self.fin(CtorOps::<C>::try_map::<_, V>(a, f), same)
                } else {
                    let f = move |v: V| -> V {
                        let h = v.hash();
                        env::with(|e| e.mapped.push((id, h)));
                        env::cb(K::Collect, id, h);
                        V::Map(id, Box::new(v))
                    };
                    self.fin(CtorOps::<C>::map::<_, V>(a, f), same)
                }
            }
            N::Hold(h, a) => {
                let p = self.node(a);
                self.hold(*h, p)
            }
            N::Func(a) => {
                let a = self.node(a);
                wrap(ctor::Adapter::func(move |ctx: &mut C, h: &mut SimH| a.construct(ctx, h)), same)
            }
            N::Rec(a) => {
                if self.sync_rec {
                    let def = |me: regex::RecursiveCtorSync<'a, C, V, SimH>| {
                        self.recs.push((id, wrap(me, same)));
                        let p = self.node(a);
                        self.recs.pop();
                        p
                    };
                    use regex::{RecParserSync, RecursiveParserSync};
                    let r = match mix(id as u64 + 5) % 3 {
                        0 => regex::rec_parser_sync::<C, V, P<'a, C>, SimH>(def),
                        1 => <RecParserSync as RecursiveParserSync<'a, C>>::build::<V, P<'a, C>, SimH, _>(def),
                        _ => <RecParserSync as RecursiveParserSync<'a, C>>::build_with::<V, P<'a, C>, SimH, _>(def),
                    };
                    wrap(r, same)
                } else {
                    let def = |me: RecP<'a, C>| {
                        self.recs.push((id, wrap(me, same)));
                        let p = self.node(a);
                        self.recs.pop();
                        p
                    };
                    use regex::{RecParser, RecursiveParser};
                    let r: RecP<'a, C> = match mix(id as u64 + 5) % 2 {
                        0 => regex::rec_parser(def),
                        _ => <RecParser as RecursiveParser<'a, C>>::build::<V, P<'a, C>, SimH, _>(def),
                    };
                    self.loops.push(r.clone());
                    wrap(r, same)
                }
            }
            N::Ref(r) => {
                let p = self.recs.iter().rev().find(|x| x.0 == *r).expect("unbound").1.clone();
                wrap(p, same)
            }
        }
    }

    #[allow(clippy::type_complexity)]
    fn dyn_then(
        &mut self,
        id: u32,
        a: &Node,
        v: &[Node],
    ) -> ctor::DynamicCtorThenBuilder<C, P<'a, C>, impl Fn(&mut C, &V) -> Result<P<'a, C>, Error> + Clone + use<'a, C>> {
        let a = self.node(a);
        let v = self.nodes(v);
        DynamicCtorThenBuilderHelper::<C>::into_ctor_then_builder(a, move |_: &mut C, x: &V| -> Result<P<'a, C>, Error> {
            let key = x.hash();
            env::cb_unit(K::Builder, id, key)?;
            Ok(v[key as usize % v.len()].clone())
        })
    }
}
