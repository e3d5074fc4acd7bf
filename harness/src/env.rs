//! Everything the parsers call back into goes through here: the simulated
//! user code, its faults, the log of what was called, and the step budget.

use neure::err::Error;
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum K {
    Handler,
    Mapper,
    Unit,
    Cond,
    Test,
    Clo,
    Builder,
    Skip,
    Read,
    Collect,
    TagClone,
}
pub const NK: usize = 11;
pub const K_NAMES: [&str; NK] = [
    "handler", "mapper", "unit", "condition", "branch_test", "closure", "builder", "skip", "context_read",
    "collector", "tag_clone",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Fault {
    Err,
    Flip,
    Panic,
}
pub const NF: usize = 3;
pub const F_NAMES: [&str; NF] = ["error", "flip", "panic"];

pub fn supports(k: K, f: Fault) -> bool {
    match f {
        Fault::Panic => true,
        Fault::Flip => matches!(k, K::Unit | K::Cond | K::Test),
        Fault::Err => !matches!(k, K::Unit | K::Collect | K::TagClone),
    }
}

/// A fault tied to a place: callback `k` of node `site` called with `key`.
#[derive(Clone, Debug, PartialEq)]
pub struct PF {
    pub k: K,
    pub site: u32,
    pub key: u64,
    pub f: Fault,
    pub uid: usize,
    /// only the first time
    pub once: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ev {
    pub k: K,
    pub site: u32,
    pub key: u64,
}

pub enum Act {
    Pass,
    Flip,
    Err(Error),
}

/// Errors that the library itself knows are user code's to return, too. (The lock error is
/// left out: it has a meaning of its own in what is checked.)
pub const ERRORS: [Error; 35] = [
    Error::OutOfBound, Error::Fail, Error::AssertFalse, Error::AssertTrue, Error::Consume, Error::Slice, Error::Literal,
    Error::AnchorEnd, Error::AnchorStart, Error::Option, Error::FromStr, Error::TryInto, Error::SelectEq, Error::SelectNeq,
    Error::Bounded, Error::SepCollect, Error::Collect, Error::Separate, Error::Separate2, Error::Repeat, Error::Repeat2,
    Error::Times, Error::Between, Error::Many1, Error::Once, Error::NeureThen, Error::Array, Error::Vector, Error::PairArray,
    Error::PairVector, Error::PairSlice, Error::Utf8Error, Error::FromLeBytes, Error::FromBeBytes, Error::FromNeBytes,
];

/// From here on fault numbers stand for one of ERRORS.
pub const KNOWN: usize = 2000;

pub fn err_of(uid: usize) -> Error {
    if uid < KNOWN { Error::Uid(uid) } else { ERRORS[(uid - KNOWN) % ERRORS.len()] }
}

/// The number of a fault's error, mostly `uid`.
pub fn any_err(t: &mut crate::tape::Tape, uid: usize) -> usize {
    if t.draw(4) == 3 { KNOWN + t.draw(ERRORS.len() as u32 + 10).saturating_sub(10) as usize } else { uid }
}

pub struct SimPanic;
pub struct Budget;
pub struct SimStop;

pub struct Env {
    pub pf: Vec<PF>,
    /// (n, fault, uid): the first callback from the n-th on that can have this fault gets it
    pub idx: Option<(u64, Fault, usize)>,
    pub idx_kind: Option<K>,
    pub idx_fired: bool,
    pub calls: u64,
    pub budget: u64,
    pub uid: u64,
    pub fired: [[u64; NF]; NK],
    pub log: Option<Vec<Ev>>,
    pub bad: Option<(Bad, String)>,
    pub reenter: Option<(u64, Box<dyn FnMut()>)>,
    /// 0: plain handler, 1: through Extract<Span>, 2: through Extract<&orig>
    pub handler_mode: u8,
    /// spans off character boundaries are fine (the grammar counts bytes)
    pub mid_ok: bool,
    /// run from a destructor, while the thread unwinds
    pub unwinding: bool,
    /// handler calls in order: (beg, len), index = uid
    pub handled: Vec<(u32, u32)>,
    /// mapper calls in order: (site, value hash)
    pub mapped: Vec<(u32, u64)>,
}

impl Env {
    pub fn new() -> Self {
        Env {
            pf: vec![],
            idx: None,
            idx_kind: None,
            idx_fired: false,
            calls: 0,
            budget: 200_000,
            uid: 0,
            fired: [[0; NF]; NK],
            log: None,
            bad: None,
            reenter: None,
            handler_mode: 0,
            mid_ok: false,
            unwinding: false,
            handled: vec![],
            mapped: vec![],
        }
    }
}

thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env::new());
    static TOTAL: RefCell<([[u64; NF]; NK], u64)> = const { RefCell::new(([[0; NF]; NK], 0)) };
}

pub fn with<R>(f: impl FnOnce(&mut Env) -> R) -> R {
    ENV.with(|e| f(&mut e.borrow_mut()))
}

/// Installs a new environment and returns the old one; counts what the old one did.
pub fn swap(new: Env) -> Env {
    let old = ENV.with(|e| std::mem::replace(&mut *e.borrow_mut(), new));
    account(&old);
    old
}

fn account(old: &Env) {
    TOTAL.with(|t| {
        let t = &mut *t.borrow_mut();
        for k in 0..NK {
            for f in 0..NF {
                t.0[k][f] += old.fired[k][f];
            }
        }
        t.1 += old.calls;
    });
}

/// Faults fired and callbacks made by this thread so far.
pub fn take_totals() -> ([[u64; NF]; NK], u64) {
    TOTAL.with(|t| std::mem::replace(&mut *t.borrow_mut(), ([[0; NF]; NK], 0)))
}

pub fn add_totals(f: &[[u64; NF]; NK], calls: u64) {
    TOTAL.with(|t| {
        let t = &mut *t.borrow_mut();
        for k in 0..NK {
            for x in 0..NF {
                t.0[k][x] += f[k][x];
            }
        }
        t.1 += calls;
    });
}

/// What a simulated user object saw the library do wrong.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// a nested match failed without restoring the position
    Nested,
    /// a span or a position out of place
    Span,
    /// something else
    Other,
}

pub fn bad(kind: Bad, msg: impl FnOnce() -> String) {
    with(|e| {
        if e.bad.is_none() {
            e.bad = Some((kind, msg()));
        }
    })
}

pub fn panic_now<T: Send + 'static>(payload: T) -> ! {
    std::panic::resume_unwind(Box::new(payload))
}

thread_local! {
    static TRACE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// A digest of all calls into simulated user code, in order, since the last time.
pub fn take_trace() -> u64 {
    TRACE.with(|t| t.replace(0))
}

/// From here on, at most so many callbacks more.
pub fn allow(n: u64) {
    with(|e| e.budget = e.budget.max(e.calls + n));
}

/// One call into simulated user code.
pub fn cb(k: K, site: u32, key: u64) -> Act {
    TRACE.with(|t| t.set(crate::tape::mix(t.get() ^ key ^ (site as u64) << 48 ^ (k as u64) << 40)));
    crate::sched::yield_point(crate::sched::Why::Callback);
    enum Do {
        Act(Act),
        Panic,
        Budget,
    }
    let mut re = None;
    let act = with(|e| {
        let n = e.calls;
        e.calls += 1;
        if e.calls > e.budget {
            return Do::Budget;
        }
        if let Some(log) = e.log.as_mut() {
            log.push(Ev { k, site, key });
        }
        if let Some((at, _)) = &e.reenter
            && n >= *at
        {
            re = e.reenter.take();
        }
        let mut fault = None;
        if let Some(i) = e.pf.iter().position(|p| p.k == k && p.site == site && p.key == key) {
            let p = &e.pf[i];
            fault = Some((p.f, p.uid));
            if p.once {
                e.pf.remove(i);
            }
        }
        if fault.is_none()
            && !e.idx_fired
            && let Some((at, f, uid)) = e.idx
            && n >= at
            && supports(k, f)
            && e.idx_kind.is_none_or(|x| x == k)
        {
            e.idx_fired = true;
            fault = Some((f, uid));
        }
        match fault {
            None => Do::Act(Act::Pass),
            Some((f, uid)) => {
                e.fired[k as usize][f as usize] += 1;
                match f {
                    Fault::Err => Do::Act(Act::Err(err_of(uid))),
                    Fault::Flip => Do::Act(Act::Flip),
                    Fault::Panic => Do::Panic,
                }
            }
        }
    });
    if let Some((_, mut f)) = re {
        let saved = ENV.with(|e| std::mem::replace(&mut *e.borrow_mut(), Env::new()));
        f();
        let inner = swap(saved);
        if let Some((k, b)) = inner.bad {
            bad(k, || b);
        }
    }
    match act {
        Do::Act(a) => a,
        Do::Panic => panic_now(SimPanic),
        Do::Budget => panic_now(Budget),
    }
}

pub fn cb_bool(k: K, site: u32, key: u64, v: bool) -> Result<bool, Error> {
    match cb(k, site, key) {
        Act::Pass => Ok(v),
        Act::Flip => Ok(!v),
        Act::Err(e) => Err(e),
    }
}

pub fn cb_unit(k: K, site: u32, key: u64) -> Result<(), Error> {
    match cb(k, site, key) {
        Act::Err(e) => Err(e),
        _ => Ok(()),
    }
}
