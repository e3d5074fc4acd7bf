//! One simulated run: a grammar, an input, a context and a fault plan, what the real
//! library does with them and what the reference says it should do.

use crate::ast::*;
use crate::build::{P, build};
use crate::ctxs::*;
use crate::env::{self, Bad, Budget, Env, Fault, K, PF, SimPanic, SimStop};
use crate::model::{E, Model, Skip};
use crate::tape::{Tape, mix};
use crate::value::V;
use neure::ctx::PolicyCtx;
use neure::err::Error;
use neure::neu;
use neure::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn silence() {
    std::panic::set_hook(Box::new(|i| {
        let msg = payload(i.payload());
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("DST_PANICS").is_some() { eprintln!("panic: {msg}{at}"); }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{at}"));
    }));
}

pub fn payload(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "(no message)".into()
    }
}

pub fn last_panic(e: &(dyn std::any::Any + Send)) -> String {
    let last = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
    if last.is_empty() { payload(e) } else { last }
}

/// What a run reports besides its verdict.
#[derive(Default)]
pub struct Rep {
    pub hash: u64,
    pub discard: bool,
    pub steps: u64,
    pub hits: BTreeMap<String, u64>,
    pub verbose: bool,
    pub text: String,
    /// schedule hashes of the threaded runs
    pub inter: Vec<u64>,
    pub foreign: u64,
    pub attempts: u64,
}

impl Rep {
    pub fn hit(&mut self, s: impl Into<String>) {
        *self.hits.entry(s.into()).or_default() += 1;
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            let _ = writeln!(self.text, "{s}");
        }
    }
    pub fn case(&mut self, h: u64) {
        self.hash = mix(self.hash ^ h);
    }
}

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CK {
    Chars,
    Bytes,
    TWs,
    TCb,
    BWs,
    BCb,
    /// the library's own white space skipping
    Ws,
    /// the same on bytes
    BSkip,
    /// the library's own skipping of all white space
    Uni,
    /// a context written by a user
    Sim,
    /// a user's context made to skip
    SimWs,
    SimCb,
    /// skipping comments, too
    TCom,
    BCom,
    SimCom,
}

impl CK {
    pub fn text(self) -> bool {
        !matches!(self, CK::Bytes | CK::BWs | CK::BCb | CK::BSkip | CK::BCom)
    }
    pub fn skip(self) -> Skip {
        match self {
            CK::Chars | CK::Bytes | CK::Sim => Skip::No,
            CK::TWs | CK::BWs | CK::Ws | CK::BSkip | CK::SimWs => Skip::Ws,
            CK::Uni => Skip::Uni,
            CK::TCb | CK::BCb | CK::SimCb => Skip::Cb,
            CK::TCom | CK::BCom | CK::SimCom => Skip::Com,
        }
    }
    pub fn plain(self) -> CK {
        match self {
            CK::TWs | CK::TCb | CK::Ws | CK::Uni | CK::TCom => CK::Chars,
            CK::BWs | CK::BCb | CK::BSkip | CK::BCom => CK::Bytes,
            CK::SimWs | CK::SimCb | CK::SimCom => CK::Sim,
            x => x,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            CK::Chars => "text",
            CK::Bytes => "bytes",
            CK::TWs => "text, skipping white space",
            CK::TCb => "text, skipping by callback",
            CK::BWs => "bytes, skipping white space",
            CK::BCb => "bytes, skipping by callback",
            CK::Ws => "text, skip_ascii_whitespace()",
            CK::BSkip => "bytes, skip_ascii_whitespace()",
            CK::Uni => "text, skip_whitespace()",
            CK::Sim => "user context",
            CK::SimWs => "user context, skipping white space",
            CK::SimCb => "user context, skipping by callback",
            CK::TCom => "text, skipping white space and comments",
            CK::BCom => "bytes, skipping white space and comments",
            CK::SimCom => "user context, skipping white space and comments",
        }
    }
}

pub const CK_ALL: [CK; 15] = [
    CK::Chars, CK::Bytes, CK::TWs, CK::TCb, CK::BWs, CK::BCb, CK::Ws, CK::Sim, CK::SimWs, CK::SimCb, CK::BSkip, CK::Uni,
    CK::TCom, CK::BCom, CK::SimCom,
];
pub const CK_SKIP: [CK; 12] = [
    CK::TWs, CK::TCb, CK::BWs, CK::BCb, CK::Ws, CK::SimWs, CK::SimCb, CK::BSkip, CK::Uni, CK::TCom, CK::BCom, CK::SimCom,
];

pub trait Mk<'a>: Lang<'a> + Clone + crate::forms::Forms<'a> {
    fn mk(src: &'a str, skip: Skip) -> Self;

    /// A context at `p`, brought there in one of many ways. All of them have to come to the same.
    fn at(src: &'a str, skip: Skip, p: usize) -> Self {
        let mut how = mix(crate::tape::hash_text(src) ^ mix(p as u64 + 7));
        let first = how % 3;
        how /= 3;
        let mut c = if first == 0 { Self::mk(src, skip) } else { Self::other(src, skip, p, how % 8) };
        how /= 8;
        match how % 7 {
            0 if c.offset() <= p => {
                c.inc(p - c.offset());
            }
            1 if p <= c.len() => {
                let n = c.len();
                c.set_offset(n).dec(n - p);
            }
            2 if p <= c.len() => {
                let here = c.offset();
                c.dec(here).inc(p);
            }
            3 if Self::CLONES => match c.clone_at(p) {
                Ok(d) => c = d,
                // in the middle of a character
                Err(_) => {
                    c.set_offset(p);
                }
            },
            4 if Self::CLONES => {
                // a clone elsewhere does not move this one
                c.set_offset(p);
                let _ = c.clone_at(if p == 0 { c.len() } else { 0 });
            }
            5 => {
                c.set_offset(p);
                c = c.clone();
            }
            _ => {
                c.set_offset(p);
            }
        }
        c
    }

    /// A context on `src`, somewhere, made in another way than by `mk`.
    fn other(src: &'a str, skip: Skip, p: usize, how: u64) -> Self;

    /// `clone_at` calls nothing of the user
    const CLONES: bool = true;
}

macro_rules! plain {
    ($t:ty, $conv:expr) => {
        impl<'a> Mk<'a> for $t {
            fn mk(src: &'a str, _: Skip) -> Self {
                <$t>::new(($conv)(src))
            }
            fn other(src: &'a str, _: Skip, p: usize, how: u64) -> Self {
                let src = ($conv)(src);
                let no = ($conv)("another text, not this one");
                match how {
                    0 => <$t>::new(src).with_offset(p),
                    1 => <$t>::new(no).with_offset(p).with_dat(src),
                    2 => {
                        let mut c = <$t>::new(no).with_offset(3);
                        c.reset_with(src);
                        Context::inc(&mut c, p);
                        c
                    }
                    3 => {
                        let mut c = <$t>::new(src).with_offset(src.len());
                        c.reset();
                        Context::inc(&mut c, p);
                        c
                    }
                    4 => <$t>::with(src, |c| c.with_offset(p)),
                    5 => <$t>::with(no, |c| c.with_offset(p).with_dat(src)),
                    6 => {
                        let c = <$t>::new(src).with_offset(p);
                        <$t>::new(c.dat()).with_offset(c.offset())
                    }
                    _ => {
                        let mut c = <$t>::new(no);
                        c.reset_with(src).reset();
                        Context::set_offset(&mut c, p);
                        c
                    }
                }
            }
        }
    };
}
plain!(CharsCtx<'a>, |s: &'a str| s);
plain!(BytesCtx<'a>, |s: &'a str| s.as_bytes());

fn skipr(skip: Skip) -> SkipR {
    match skip {
        Skip::Cb => SkipR::Cb,
        Skip::Com => SkipR::Com,
        _ => SkipR::Ws,
    }
}

/// Contexts that skip something, around a context of `$i`.
macro_rules! policy {
    ($t:ty, $i:ty, |$c:ident, $skip:ident| $mk:expr $(, $with:expr)?) => {
        impl<'a> Mk<'a> for $t {
            const CLONES: bool = <$i>::CLONES;
            fn mk(src: &'a str, $skip: Skip) -> Self {
                let $c = <$i>::mk(src, $skip);
                $mk
            }
            fn other(src: &'a str, $skip: Skip, p: usize, how: u64) -> Self {
                let inner = <$i as Mk<'a>>::at(src, $skip, p);
                let made = |$c: $i| $mk;
                let no = made(<$i>::mk("another text, not this one", $skip));
                match how {
                    0 => no.with_inner(inner),
                    1 => {
                        let mut c = no;
                        Context::inc(&mut c, 2);
                        c.set_inner(inner);
                        c
                    }
                    2 => {
                        let mut c = no;
                        c.reset_with(inner);
                        c
                    }
                    3 => {
                        let mut c = no;
                        *c.inner_mut() = inner;
                        c
                    }
                    4 => {
                        let mut c = made(<$i>::mk(src, $skip));
                        Context::set_offset(c.inner_mut(), p);
                        c
                    }
                    5 => {
                        let mut c = made(<$i>::mk(src, $skip));
                        Context::inc(&mut c, p);
                        let at = Context::offset(c.inner());
                        Context::set_offset(&mut c, at);
                        c
                    }
                    $(6 => PolicyCtx::new(inner, ()).with_regex(($with)($skip)),)?
                    _ => made(inner),
                }
            }
        }
    };
}
policy!(Pol<'a>, CharsCtx<'a>, |c, skip| c.skip_before(skipr(skip)), skipr);
policy!(PolB<'a>, BytesCtx<'a>, |c, skip| c.skip_before(skipr(skip)), skipr);
policy!(WsCtx<'a>, CharsCtx<'a>, |c, _skip| c.skip_ascii_whitespace(), |_| neu::Many0::new(neu::ascii_whitespace(), neu::EmptyCond));
policy!(UniCtx<'a>, CharsCtx<'a>, |c, _skip| c.skip_whitespace(), |_| neu::Many0::new(neu::whitespace(), neu::EmptyCond));
policy!(WsB<'a>, BytesCtx<'a>, |c, _skip| c.skip_ascii_whitespace(), |_| neu::Many0::new(neu::ascii_whitespace(), neu::EmptyCond));
policy!(PolS<'a>, SimCtx<'a>, |c, skip| PolicyCtx::new(c, skipr(skip)), skipr);

impl<'a> Mk<'a> for SimCtx<'a> {
    const CLONES: bool = false;
    fn mk(src: &'a str, _: Skip) -> Self {
        SimCtx::new(src)
    }
    fn other(src: &'a str, _: Skip, _: usize, _: u64) -> Self {
        SimCtx::new(src)
    }
}

/// Something to do with a context of any kind.
pub trait Job {
    type R;
    fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Self::R;
}

pub fn dispatch<J: Job>(ck: CK, src: &str, j: J) -> J::R {
    let skip = ck.skip();
    match ck {
        CK::Chars => j.go::<CharsCtx>(src, skip),
        CK::Bytes => j.go::<BytesCtx>(src, skip),
        CK::TWs | CK::TCb | CK::TCom => j.go::<Pol>(src, skip),
        CK::BWs | CK::BCb | CK::BCom => j.go::<PolB>(src, skip),
        CK::Ws => j.go::<WsCtx>(src, skip),
        CK::BSkip => j.go::<WsB>(src, skip),
        CK::Uni => j.go::<UniCtx>(src, skip),
        CK::Sim => j.go::<SimCtx>(src, skip),
        CK::SimWs | CK::SimCb | CK::SimCom => j.go::<PolS>(src, skip),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum PK {
    /// a panic of simulated user code
    Sim,
    /// too many callbacks
    Budget,
    /// a panic of the library itself
    Lib(String),
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, PK> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if e.is::<SimPanic>() {
            PK::Sim
        } else if e.is::<Budget>() {
            PK::Budget
        } else if e.is::<SimStop>() {
            std::panic::resume_unwind(e)
        } else {
            PK::Lib(LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
        }
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    /// `ctx.try_mat(&p)`
    Mat,
    /// `p.try_parse(&mut ctx)`
    Rx,
    /// `ctx.ctor_handler(&p, handler)`
    Con,
    /// `p.construct(&mut ctx, &mut handler)`
    Dir,
}

#[derive(Clone, Debug)]
pub enum Ret {
    Span(usize, usize),
    Val(V),
    Err(Error),
    Panic(PK),
}

pub struct Obs {
    pub ret: Ret,
    pub pos: usize,
    pub env: Env,
}

pub fn show_ret(r: &Ret) -> String {
    match r {
        Ret::Span(b, l) => format!("span {}..{}", b, b + l),
        Ret::Val(v) => format!("value {}", v.show()),
        Ret::Err(e) => format!("error {e:?}"),
        Ret::Panic(PK::Sim) => "panic of a callback".into(),
        Ret::Panic(PK::Budget) => "no end (callback budget used up)".into(),
        Ret::Panic(PK::Lib(m)) => format!("the library panicked: {m}"),
    }
}

/// The same answer, whoever produced the values.
pub fn same_ret(a: &Ret, b: &Ret) -> bool {
    match (a, b) {
        (Ret::Span(a, b), Ret::Span(c, d)) => a == c && b == d,
        (Ret::Val(a), Ret::Val(b)) => a.same(b),
        (Ret::Err(a), Ret::Err(b)) => a == b,
        (Ret::Panic(a), Ret::Panic(b)) => a == b,
        _ => false,
    }
}

impl Obs {
    pub fn show(&self) -> String {
        format!("{}, position {}", show_ret(&self.ret), self.pos)
    }

    /// The same answer, whoever produced the values.
    pub fn same(&self, o: &Obs) -> bool {
        self.pos == o.pos && same_ret(&self.ret, &o.ret)
    }

    pub fn ret_is_panic(&self) -> bool {
        matches!(self.ret, Ret::Panic(PK::Sim))
    }

    pub fn ok(&self) -> bool {
        matches!(self.ret, Ret::Span(..) | Ret::Val(_))
    }
}

/// Runs `f` from a destructor, while a panic that has nothing to do with it unwinds.
fn in_unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct Last<F: FnMut()>(F);
    impl<F: FnMut()> Drop for Last<F> {
        fn drop(&mut self) {
            (self.0)()
        }
    }
    let (mut f, mut r) = (Some(f), None);
    let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _last = Last(|| r = f.take().map(|f| f()));
        std::panic::resume_unwind(Box::new(SimPanic));
    }));
    debug_assert!(p.is_err());
    r.unwrap()
}

/// One operation on one context.
pub fn run_one<'a, C: Mk<'a>>(p: &P<'a, C>, ctx: &mut C, mode: Mode, env: Env) -> Obs {
    // a lock that is taken while the thread unwinds is not poisoned by another panic
    let panics = env.pf.iter().any(|p| p.f == Fault::Panic) || env.idx.is_some_and(|i| i.1 == Fault::Panic);
    if env.unwinding && !panics && env.reenter.is_none() {
        return in_unwinding(|| run_one(p, ctx, mode, Env { unwinding: false, ..env }));
    }
    env::swap(env);
    let r = guarded(|| match mode {
        Mode::Mat => ctx.try_mat(p).map(|s| Ret::Span(s.beg, s.len)),
        Mode::Rx => p.try_parse(ctx).map(|s| Ret::Span(s.beg, s.len)),
        Mode::Con => ctx.ctor_handler(p, SimH).map(Ret::Val),
        Mode::Dir => p.construct(ctx, &mut SimH).map(Ret::Val),
    });
    let ret = match r {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => Ret::Err(e),
        Err(p) => Ret::Panic(p),
    };
    let env = env::swap(Env::new());
    Obs { ret, pos: ctx.offset(), env }
}

#[derive(Clone, Debug)]
pub struct Scene {
    pub node: Node,
    pub src: std::sync::Arc<str>,
    pub ck: CK,
    pub start: usize,
    pub pf: Vec<PF>,
    pub mode: Mode,
    /// how the handler reads its span
    pub hm: u8,
    /// run it from a destructor, while the thread unwinds
    pub uw: bool,
}

impl Scene {
    pub fn env(&self) -> Env {
        let mut e = Env::new();
        e.pf = self.pf.clone();
        e.handler_mode = self.hm;
        e.unwinding = self.uw;
        e.mid_ok = mid_ok(&self.node);
        e.budget += 60 * self.src.len() as u64;
        e
    }

    pub fn model<'m>(&'m self) -> Model<'m> {
        Model::new(self.src.as_bytes(), self.ck.text(), self.ck.skip(), &self.pf, &self.node)
    }

    pub fn hash(&self) -> u64 {
        let mut h = crate::tape::hash_str(&self.node.show());
        h = mix(h ^ crate::tape::hash_text(&self.src));
        h = mix(h ^ (self.ck as u64) << 32 ^ self.start as u64 ^ (self.mode as u64) << 40 ^ (self.uw as u64) << 50);
        for p in &self.pf {
            h = mix(h ^ p.key ^ (p.k as u64) << 56 ^ (p.site as u64) << 40 ^ (p.f as u64) << 50 ^ (p.once as u64) << 53);
        }
        h
    }

    pub fn show_src(&self) -> String {
        let n = self.src.len();
        if n <= 400 {
            return format!("{:?}", self.src);
        }
        let c: Vec<char> = self.src.chars().collect();
        let (a, b): (String, String) = (c[..60].iter().collect(), c[c.len() - 30..].iter().collect());
        format!("{a:?} .. {b:?} ({n} bytes, sum {:x})", crate::tape::hash_str(&self.src))
    }

    pub fn show_input(&self) -> String {
        let mut o = format!("{:?} on {} at {}", self.mode, self.show_src(), self.start);
        for p in &self.pf {
            let _ = write!(o, "; {}", show_fault(p));
        }
        o
    }

    pub fn show(&self) -> String {
        let mut o = format!(
            "{} on {} ({}) at {}: {}",
            match self.mode {
                Mode::Mat => "try_mat",
                Mode::Rx => "try_parse",
                Mode::Con => "ctor_handler",
                Mode::Dir => "construct",
            },
            self.show_src(),
            self.ck.name(),
            self.start,
            self.node.show()
        );
        if self.uw {
            o.push_str("; from a destructor while the thread unwinds");
        }
        for p in &self.pf {
            let _ = write!(o, "; {}", show_fault(p));
        }
        o
    }

    pub fn observe(&self) -> Obs {
        dispatch(self.ck, &self.src, Observe(self))
    }

    pub fn predict(&self) -> Pred {
        let mut m = self.model();
        let exp = predict(&mut m, &self.node, self.start, self.mode);
        Pred { exp, log: m.log, over: m.over, depth: m.max_depth }
    }
}

pub fn mid_ok(n: &Node) -> bool {
    n.has(&|n| matches!(n, N::Consume(k) if *k > 0))
}

pub fn show_fault(p: &PF) -> String {
    let what = match p.f {
        Fault::Err => format!("returns Error::{:?}", env::err_of(p.uid)),
        Fault::Flip => "gives the opposite answer".into(),
        Fault::Panic => "panics".into(),
    };
    let at = match p.k {
        K::Handler => format!("handler for span {}..{}", p.key >> 20, (p.key >> 20) + (p.key & 0xfffff)),
        K::Unit => format!("unit closure #{} on {:?}", p.site, char::from_u32(p.key as u32)),
        K::Skip => format!("skip pattern ending at {}", p.key),
        k => format!("{} #{} (key {})", env::K_NAMES[k as usize], p.site, p.key),
    };
    format!("{at} {what}{}", if p.once { " the first time" } else { "" })
}

struct Observe<'s>(&'s Scene);
impl Job for Observe<'_> {
    type R = Obs;
    fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Obs {
        let s = self.0;
        let b = build::<C>(&s.node);
        let mut ctx = C::at(src, skip, s.start);
        let mut o = run_one(&b.p, &mut ctx, s.mode, s.env());
        // the short forms say the same
        if matches!(s.mode, Mode::Rx | Mode::Mat) && !matches!(o.ret, Ret::Panic(_)) && s.hash() % 4 == 1 {
            let b = build::<C>(&s.node);
            let mut ctx = C::at(src, skip, s.start);
            env::swap(s.env());
            let (name, r) = match s.mode {
                Mode::Rx => ("parse", guarded(|| b.p.parse(&mut ctx))),
                _ => ("is_mat", guarded(|| ctx.is_mat(&b.p))),
            };
            env::swap(Env::new());
            let r = r.ok();
            if r != Some(o.ok()) || ctx.offset() != o.pos {
                let at = ctx.offset();
                o.ret = Ret::Panic(PK::Lib(format!("{name} gives {r:?} and the position {at}, the other form gives {}", o.show())));
            }
        }
        if matches!(s.mode, Mode::Rx | Mode::Dir) && matches!(o.ret, Ret::Err(_)) && !restores(&s.node, s.mode) {
            // nothing is said about the position
            o.pos = s.start;
        }
        o
    }
}

#[derive(Clone, Debug)]
pub enum Exp {
    Span(usize, usize, usize),
    Val(V, usize),
    Err(E),
}

pub struct Pred {
    pub exp: Exp,
    pub log: Vec<env::Ev>,
    pub over: bool,
    pub depth: u32,
}

pub fn predict<'m>(m: &mut Model<'m>, n: &'m Node, p: usize, mode: Mode) -> Exp {
    match mode {
        Mode::Mat => m.mat(n, p).map(|(b, l, e)| Exp::Span(b, l, e)),
        Mode::Rx => m.rx(n, p).map(|(b, l, e)| Exp::Span(b, l, e)),
        Mode::Con | Mode::Dir => m.con(n, p).map(|(v, e)| Exp::Val(v, e)),
    }
    .unwrap_or_else(Exp::Err)
}

impl Exp {
    pub fn show(&self) -> String {
        match self {
            Exp::Span(b, l, e) => format!("span {}..{}, position {e}", b, b + l),
            Exp::Val(v, e) => format!("value {}, position {e}", v.show()),
            Exp::Err(E::Any) => "an error, position unchanged".into(),
            Exp::Err(E::Uid(u)) => format!("error {:?}, position unchanged", env::err_of(*u)),
        }
    }

}

/// Compares the real outcome with the expected one. `exact`: the error too.
pub fn compare(o: &Obs, x: &Exp, start: usize, exact: bool) -> Option<String> {
    let good = match (&o.ret, x) {
        (Ret::Span(b, l), Exp::Span(xb, xl, e)) => b == xb && l == xl && o.pos == *e,
        (Ret::Val(v), Exp::Val(xv, e)) => v.same(xv) && o.pos == *e,
        (Ret::Err(er), Exp::Err(x)) => {
            o.pos == start && (!exact || *x == E::Any || matches!(x, E::Uid(w) if *er == env::err_of(*w)))
        }
        _ => false,
    };
    if good { None } else { Some(format!("expected {}, got {}", x.show(), o.show())) }
}

/// Every self-reference points into the node itself.
pub fn closed(n: &Node) -> bool {
    fn go(n: &Node, recs: &mut Vec<u32>) -> bool {
        if let N::Ref(r) = &n.k {
            return recs.contains(r);
        }
        let rec = matches!(n.k, N::Rec(_));
        if rec {
            recs.push(n.id);
        }
        let ok = n.kids().into_iter().all(|k| go(k, recs));
        if rec {
            recs.pop();
        }
        ok
    }
    go(n, &mut vec![])
}

/// Whether the parser undoes its own failure, when it is called without a context's help.
pub fn restores(n: &Node, mode: Mode) -> bool {
    let rx = mode == Mode::Rx;
    match &n.k {
        N::Then(..) | N::IfThen(..) | N::Prefix(..) | N::Suffix(..) | N::Enclose(..) | N::SepOnce(..) | N::Sep { .. }
        | N::Sep2 { .. } | N::SepCollect { .. } | N::Repeat(..) | N::Repeat2(..) | N::Collect { .. } | N::Or(..)
        | N::Longest(..) | N::Alts(..) | N::Pairs(..) | N::Opt(_) | N::Branch { .. } | N::DynThen(..)
        | N::Ws { .. } | N::RxBuilder(..) | N::Around(..) => rx || !matches!(n.k, N::RxBuilder(..) | N::Around(..)),
        _ => rx && !n.has(&|n| matches!(n, N::Clo { dirty: true, .. })),
    }
}

pub fn rx_able(n: &Node) -> bool {
    !n.has(&|n| matches!(n, N::DynThen(..) | N::Func(_)))
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Blame {
    /// this node does not do what it should with what its parts really do
    Yes(String),
    /// some other node does not
    Foreign,
    /// each node does; it takes the whole
    Unexplained,
}

/// Finds out which node is wrong: for each node, compares what it really does with
/// what the reference makes of what its parts really do.
pub fn blame(s: &Scene, mine: &dyn Fn(&N) -> bool) -> Blame {
    let mut nodes: Vec<&Node> = vec![];
    s.node.walk(&mut |n| nodes.push(n));
    nodes.retain(|n| closed(n));
    nodes.reverse();
    let mut foreign = false;
    for n in nodes {
        let is_mine = mine(&n.k);
        if !is_mine && foreign {
            continue;
        }
        if let Some(m) = wrong(s, n) {
            if is_mine {
                return Blame::Yes(m);
            }
            foreign = true;
        }
    }
    if foreign { Blame::Foreign } else { Blame::Unexplained }
}

/// How the node itself goes wrong, if it does.
pub fn wrong(s: &Scene, n: &Node) -> Option<String> {
    let mut one = s.clone();
    one.node = n.clone();
    let mut modes = vec![Mode::Con];
    if rx_able(n) {
        modes.push(Mode::Mat);
        if restores(n, Mode::Rx) {
            modes.push(Mode::Rx);
        }
    }
    if restores(n, Mode::Dir) {
        modes.push(Mode::Dir);
    }
    for mode in modes {
        for p in 0..=s.src.len() {
            if s.ck.text() && !s.src.is_char_boundary(p) {
                continue;
            }
            if s.src.len() > 1000 && p != s.start && p != s.src.len() && p % (s.src.len() / 16) != 0 {
                continue;
            }
            one.start = p;
            one.mode = mode;
            let o = one.observe();
            let crashed = std::cell::Cell::new(false);
            let oracle = |k: &Node, p: usize, mode: Mode| -> Result<(Option<V>, usize, usize, usize), E> {
                if !closed(k) {
                    crashed.set(true);
                    return Err(E::Any);
                }
                let mut c = s.clone();
                c.node = k.clone();
                c.start = p;
                c.mode = mode;
                let o = c.observe();
                match o.ret {
                    Ret::Span(b, l) => Ok((None, b, l, o.pos)),
                    Ret::Val(v) => Ok((Some(v), 0, 0, o.pos)),
                    Ret::Err(Error::Uid(u)) => Err(E::Uid(u)),
                    Ret::Err(_) => Err(E::Any),
                    Ret::Panic(_) => {
                        crashed.set(true);
                        Err(E::Any)
                    }
                }
            };
            let mut m = one.model();
            m.hybrid = Some((n.id, &oracle));
            let x = predict(&mut m, &one.node, p, mode);
            if crashed.get() || m.over {
                continue;
            }
            if let Some(d) = compare(&o, &x, p, false) {
                return Some(format!("{}: {d} (given what its parts do there)", one.show()));
            }
        }
    }
    None
}

// ---- generation

pub fn base_weights() -> Vec<(&'static str, u32)> {
    let mut w = LEAVES.to_vec();
    w.extend([
        ("rxbuilder", 2), ("around", 2), ("then", 6), ("ifthen", 4), ("prefix", 3), ("suffix", 3), ("enclose", 3), ("seponce", 3),
        ("sel", 3), ("sep", 4), ("sep2", 3), ("sepcollect", 3), ("repeat", 4), ("repeat2", 3), ("collect", 3),
        ("or", 5), ("longest", 3), ("alts", 4), ("alts_ltm", 3), ("pairs", 3), ("pairs_ltm", 3), ("opt", 4),
        ("branch", 4), ("dynthen", 3), ("map", 4), ("ws", 2), ("hold", 3), ("func", 2), ("rec", 2), ("ref", 8),
    ]);
    w
}

#[derive(Clone)]
pub struct Opts {
    /// sometimes with a great many items
    pub many: bool,
    /// kinds to favour, and to have at the root
    pub focus: &'static [&'static str],
    pub cks: &'static [CK],
    /// of 4: how often the whole is run as a pattern
    pub rx: u32,
    pub without: &'static [&'static str],
    pub mutex: bool,
    pub sync_only: bool,
    pub preds: bool,
    pub dirty: bool,
    pub nodes: u32,
    pub depth: u32,
    pub max_len: usize,
    pub handler_modes: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            focus: &[],
            cks: &CK_ALL,
            rx: 1,
            without: &[],
            mutex: true,
            sync_only: false,
            preds: true,
            dirty: true,
            nodes: 14,
            depth: 5,
            max_len: 48,
            handler_modes: true,
            many: false,
        }
    }
}

impl Opts {
    pub fn profile(&self, t: &mut Tape, ck: CK) -> Profile {
        let text = ck.text();
        let mut w = base_weights();
        for (k, x) in w.iter_mut() {
            if self.without.contains(k) {
                *x = 0;
            } else if self.focus.contains(k) {
                *x = *x * 3 + 4;
            }
        }
        let mutex = self.mutex && t.chance(1, 4);
        if mutex {
            // a lock may not be entered again, which recursion would do
            w.retain(|x| x.0 != "rec" && x.0 != "ref");
        }
        let size = t.draw(4);
        Profile {
            w,
            max_nodes: [self.nodes, self.nodes / 2, self.nodes / 4 + 1, self.nodes * 2][size as usize],
            max_depth: self.depth,
            conds: true,
            preds: self.preds,
            // a user's pattern that does not undo on a user's context that does not either
            // is nothing the library could repair
            dirty: self.dirty && ck != CK::Sim,
            text,
            mutex,
            refcell: true,
            sync_only: self.sync_only,
        }
    }
}

pub fn sample_text(t: &mut Tape, n: &Node, ws: u32, max_len: usize) -> String {
    let mut sm = Sampler { t, root: n, out: String::new(), ws, depth: if max_len >= 200 { 14 } else { 3 }, max_len };
    sm.go(n);
    sm.out
}

pub fn gen_src(t: &mut Tape, n: &Node, skip: Skip, max_len: usize) -> (String, usize) {
    let ws = match skip {
        Skip::No => 0,
        Skip::Uni => 3,
        Skip::Com => 4,
        _ => 2,
    };
    let mut src = sample_text(t, n, ws, max_len);
    if t.draw(2) == 1 {
        let k = 1 + t.draw(3);
        mutate(t, &mut src, k);
    }
    match t.draw(6) {
        4 => src.push(*t.pick(&ALPHA)),
        5 => {
            let more = sample_text(t, n, ws, 12);
            src.push_str(&more)
        }
        _ => {}
    }
    let mut start = 0;
    if t.draw(4) == 3 {
        let mut pre = String::new();
        for _ in 0..1 + t.draw(3) {
            pre.push(*t.pick(&ALPHA));
        }
        start = pre.len();
        pre.push_str(&src);
        src = pre;
    }
    (src, start)
}

/// A great many of something small.
fn many(t: &mut Tape, o: &Opts, ck: CK, rx: bool) -> Scene {
    let n = *t.pick(&[990, 4_090, 8_180, 9_990, 16_380, 32_760, 65_530, 99_990]) + t.draw(16) as usize;
    let bound = n.saturating_sub(t.draw(3) as usize);
    let id = std::cell::Cell::new(0);
    let mk = |k| {
        id.set(id.get() + 1);
        Box::new(Node { id: id.get(), k })
    };
    let a = || U::Ch('a');
    let item = match t.draw(3) {
        0 => N::Lit { form: t.draw(6) as u8, i: 0 },
        1 => N::Unit { u: a(), f: Form::Once, cond: Cond::None },
        _ => N::Or(mk(N::Lit { form: 0, i: 7 }), mk(N::Lit { form: 0, i: 0 })),
    };
    let item = mk(item);
    let rng = match t.draw(4) {
        0 => Rng::From(bound),
        1 => Rng::ToIncl(bound),
        2 => Rng::Exact(bound),
        _ => Rng::Full,
    };
    let all = ["repeat", "collect", "sep", "sepcollect", "unit"];
    let mut kinds: Vec<&str> = all.into_iter().filter(|k| o.focus.contains(k)).collect();
    if kinds.is_empty() {
        kinds = all.to_vec();
    }
    let (skip, min) = (t.draw(2) == 1, t.draw(3) as u8);
    let kind = *t.pick(&kinds);
    let body = match kind {
        "repeat" => N::Repeat(item, rng),
        "collect" => N::Collect { item, min, take: [0, 101][t.draw(2) as usize] },
        "sep" => N::Sep { item, sep: mk(N::Lit { form: 0, i: 2 }), skip, min },
        "sepcollect" => N::SepCollect { item, sep: mk(N::Lit { form: 0, i: 2 }), skip, min, take: [0, 101][t.draw(2) as usize] },
        _ => {
            let f = match t.draw(4) {
                0 => Form::Many0,
                1 => Form::Many1,
                2 => Form::AtLeast(min),
                _ => Form::Times(rng),
            };
            N::Unit { u: a(), f, cond: Cond::None }
        }
    };
    let body = mk(body);
    let end = |t: &mut Tape| N::Lit { form: 0, i: t.draw(2) as u8 };
    let node = match t.draw(6) {
        0 => mk(N::Then(body, mk(end(t)))),
        1 => mk(N::Opt(mk(N::Then(body, mk(end(t)))))),
        2 => mk(N::Longest(mk(end(t)), body)),
        3 => mk(N::Or(mk(N::Suffix(body.clone(), mk(end(t)))), body)),
        _ => body,
    };
    let mut src = match kind {
        "sep" | "sepcollect" => "a,".repeat(n - 1) + ["a", "a,"][t.draw(2) as usize],
        _ => "a".repeat(n),
    };
    src.push_str(["", "", "b", "1", "é"][t.draw(5) as usize]);
    Scene { node: *node, src: src.into(), ck, start: 0, pf: vec![], mode: if rx { Mode::Mat } else { Mode::Con }, hm: 0, uw: false }
}

pub fn scene(t: &mut Tape, o: &Opts) -> Scene {
    let ck = *t.pick(o.cks);
    let rx = t.draw(4) < o.rx;
    let max_len = match t.draw(1000) {
        999 => {
            if o.many && t.draw(8) == 7 {
                return many(t, o, ck, rx);
            }
            6000
        }
        n if n % 20 == 19 => 200 + o.max_len * 8,
        _ => o.max_len,
    };
    let prof = o.profile(t, ck);
    let focus = !o.focus.is_empty() && t.draw(4) < 3;
    let mut g = Gen::new(t, prof);
    let node = if focus {
        let kinds: Vec<&'static str> = o
            .focus
            .iter()
            .copied()
            .filter(|k| *k != "ref" && !(rx && matches!(*k, "dynthen" | "func")) && !(*k == "rec" && !g.p.w.iter().any(|x| x.0 == "rec")))
            .collect();
        if kinds.is_empty() { g.root(rx) } else { g.root_of(&kinds, rx) }
    } else {
        g.root(rx)
    };
    let (src, start) = gen_src(t, &node, ck.skip(), max_len);
    let mut hm = if o.handler_modes { t.draw(4) as u8 } else { 0 };
    if hm > 1 && mid_ok(&node) {
        hm = 1;
    }
    let mode = if rx { Mode::Mat } else { Mode::Con };
    let uw = t.draw(16) == 15;
    Scene { node, src: src.into(), ck, start, pf: vec![], mode, hm, uw }
}

/// Adds up to `n` faults at callbacks that are really reached; returns the final
/// prediction, or None when the case is too big.
pub fn add_faults(t: &mut Tape, s: &mut Scene, n: u32, ok: &dyn Fn(K, Fault) -> bool) -> Option<Pred> {
    let mut pred = s.predict();
    if pred.over {
        return None;
    }
    for i in 0..n {
        let mut kinds: Vec<K> = vec![];
        for e in &pred.log {
            if !kinds.contains(&e.k) && [Fault::Err, Fault::Flip, Fault::Panic].iter().any(|f| env::supports(e.k, *f) && ok(e.k, *f)) {
                kinds.push(e.k);
            }
        }
        if kinds.is_empty() {
            break;
        }
        let k = *t.pick(&kinds);
        let evs: Vec<&env::Ev> = pred.log.iter().filter(|e| e.k == k).collect();
        let e = **t.pick(&evs);
        let fs: Vec<Fault> =
            [Fault::Err, Fault::Flip, Fault::Panic].into_iter().filter(|f| env::supports(k, *f) && ok(k, *f)).collect();
        let f = *t.pick(&fs);
        if s.pf.iter().any(|p| p.k == k && p.site == e.site && p.key == e.key) {
            continue;
        }
        let uid = env::any_err(t, 1000 + i as usize);
        s.pf.push(PF { k, site: e.site, key: e.key, f, uid, once: false });
        pred = s.predict();
        if pred.over {
            return None;
        }
    }
    Some(pred)
}

/// Makes the last error pass: asked again, the callback would not fail. The reference asks
/// it once, so that this changes nothing.
pub fn transient(t: &mut Tape, s: &mut Scene, pred: &Pred) {
    if t.draw(3) != 2 {
        return;
    }
    // these may ask more often than the reference does
    let more = |r: &Rng| r.max().is_some_and(|m| m < r.min());
    if s.node.has(&|n| match n {
        N::Collect { take, .. } | N::SepCollect { take, .. } => *take == 101,
        N::Repeat(_, r) | N::Unit { f: Form::Times(r), .. } => more(r),
        _ => false,
    }) {
        return;
    }
    if let Some(p) = s.pf.last_mut()
        && p.f == Fault::Err
        && pred.log.iter().filter(|e| e.k == p.k && e.site == p.site && e.key == p.key).count() == 1
    {
        p.once = true;
    }
}

pub fn no_panics(_: K, f: Fault) -> bool {
    f != Fault::Panic
}

/// What the statistics say about a run.
pub fn account(rep: &mut Rep, s: &Scene, o: &Obs) {
    account_ret(rep, s, &o.ret, o.env.calls)
}

pub fn account_ret(rep: &mut Rep, s: &Scene, ret: &Ret, calls: u64) {
    rep.attempts += 1;
    rep.steps += calls + 1;
    rep.hit(format!("context:{}", s.ck.name()));
    if s.src.len() > 1000 {
        rep.hit(if s.src.len() > 60_000 { "input longer than 60000" } else { "input longer than 1000" });
    }
    if s.uw {
        rep.hit("from a destructor while the thread unwinds");
    }
    let end = match ret {
        Ret::Span(..) | Ret::Val(_) => "ok",
        Ret::Err(_) => "err",
        Ret::Panic(_) => "panic",
    };
    let mut seen: Vec<&'static str> = vec![];
    s.node.walk(&mut |n| {
        let x = n.k.name();
        if !seen.contains(&x) {
            seen.push(x);
        }
    });
    for x in seen {
        rep.hit(format!("{x}:{end}"));
    }
}

/// The kinds of misbehaviour noticed by simulated objects that concern a property.
pub fn noticed(o: &Obs, kinds: &[Bad]) -> Option<String> {
    o.env.bad.as_ref().filter(|b| kinds.contains(&b.0)).map(|b| b.1.clone())
}

/// The parser is called, not the context.
pub fn direct(s: &mut Scene) {
    let mode = if s.mode == Mode::Con { Mode::Dir } else { Mode::Rx };
    if restores(&s.node, mode) {
        s.mode = mode;
    }
}

/// The real library against the reference, for the nodes that a property is about.
pub fn diff(t: &mut Tape, rep: &mut Rep, o: &Opts, mine: &dyn Fn(&N) -> bool) -> Res {
    let mut s = scene(t, o);
    let n = [0, 0, 1, 1, 2, 3][t.draw(6) as usize];
    if t.draw(4) == 3 {
        direct(&mut s);
    }
    let Some(pred) = add_faults(t, &mut s, n, &no_panics) else {
        rep.discard = true;
        return Ok(());
    };
    transient(t, &mut s, &pred);
    rep.case(s.hash());
    let obs = s.observe();
    account(rep, &s, &obs);
    rep.say(|| format!("{}\n  expected {}\n  got      {}", s.show(), pred.exp.show(), obs.show()));
    if let Some(m) = compare(&obs, &pred.exp, s.start, false) {
        return match blame(&s, mine) {
            Blame::Foreign => {
                rep.foreign += 1;
                Ok(())
            }
            Blame::Yes(w) => Err(format!("{}: {m}\n  {w}", s.show())),
            Blame::Unexplained => Err(format!("{}: {m}", s.show())),
        };
    }
    Ok(())
}
