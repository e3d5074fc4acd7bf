//! The thread scheduler: real threads, of which exactly one runs at a time. Who runs
//! next is decided at every callback and at every lock and atomic operation of the
//! library, from the tape.

use crate::env::{self, NF, NK};
use crate::tape::{Tape, mix};
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Why {
    Callback,
    Lock,
    Blocked,
    Unlock,
    Load,
    Store,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Th {
    Ready,
    Blocked(usize),
    Stalled,
    Done,
}

enum Strat {
    /// switch with probability 1/n at every point
    Random(u32),
    /// priorities, lowered at a few points drawn in advance
    Prio { prio: Vec<u32>, change: Vec<u64>, low: u32 },
}

struct S {
    cur: usize,
    st: Vec<Th>,
    tape: Tape,
    strat: Strat,
    steps: u64,
    run_len: u64,
    switches: u64,
    preempt_in_lock: u64,
    contended: u64,
    points: [u64; 6],
    hash: u64,
    abort: bool,
    problem: Option<String>,
    faults: [[u64; NF]; NK],
    calls: u64,
    schedule: Vec<(u8, u32)>,
    locks: u64,
    stalls: u64,
    /// where the state of every thread can be read
    stat: Vec<String>,
}

pub struct Sched {
    s: Mutex<S>,
    cv: Vec<Condvar>,
    main: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

#[derive(Debug, Default)]
pub struct Report {
    pub problem: Option<String>,
    pub steps: u64,
    pub switches: u64,
    pub contended: u64,
    pub preempt_in_lock: u64,
    pub points: [u64; 6],
    pub hash: u64,
    pub schedule: String,
    pub stalls: u64,
}

pub const POINT_CAP: u64 = 400_000;

/// What to do when the run is stuck for good; the process ends with it.
static STUCK: OnceLock<fn(&str) -> !> = OnceLock::new();

pub fn on_stuck(f: fn(&str) -> !) {
    let _ = STUCK.set(f);
}

fn lock(m: &Mutex<S>) -> MutexGuard<'_, S> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

impl S {
    /// Decides who goes on. None: nobody can.
    fn choose(&mut self, me: Option<usize>) -> Option<usize> {
        let ready: Vec<usize> = (0..self.st.len()).filter(|i| self.st[*i] == Th::Ready).collect();
        if ready.is_empty() {
            return None;
        }
        let stay = me.filter(|m| ready.contains(m));
        let others: Vec<usize> = ready.iter().copied().filter(|i| Some(*i) != stay).collect();
        if others.is_empty() {
            return stay;
        }
        let force = stay.is_none() || self.run_len > 3000;
        let next = match &mut self.strat {
            Strat::Random(n) => {
                let n = *n;
                if force || self.tape.chance(1, n) {
                    others[self.tape.draw(others.len() as u32) as usize]
                } else {
                    stay.unwrap()
                }
            }
            Strat::Prio { prio, change, low } => {
                if change.contains(&self.steps) || (force && stay.is_some()) {
                    if let Some(m) = me {
                        *low = low.saturating_sub(1);
                        prio[m] = *low;
                    }
                }
                *ready.iter().max_by_key(|i| (prio[**i], std::cmp::Reverse(**i))).unwrap()
            }
        };
        Some(next)
    }

    fn set_cur(&mut self, next: usize) {
        if next != self.cur {
            self.switches += 1;
            if self.locks > 0 {
                self.preempt_in_lock += 1;
            }
            self.run_len = 0;
        }
        self.run_len += 1;
        self.cur = next;
        match self.schedule.last_mut() {
            Some((t, n)) if *t as usize == next => *n += 1,
            _ => {
                if self.schedule.len() < 2000 {
                    self.schedule.push((next as u8, 1))
                }
            }
        }
    }

    fn stop(&mut self, why: String) {
        if self.problem.is_none() {
            self.problem = Some(why);
        }
        self.abort = true;
    }
}

impl Sched {
    fn wait_turn<'g>(&'g self, me: usize, mut s: MutexGuard<'g, S>) -> MutexGuard<'g, S> {
        while s.cur != me && !s.abort {
            s = self.cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
        s
    }

    fn all(&self) {
        self.cv.iter().for_each(|c| c.notify_all());
        self.main.notify_all();
    }

    fn point(&self, me: usize, why: Why, addr: usize) {
        let mut s = lock(&self.s);
        if s.abort {
            drop(s);
            if why != Why::Unlock && !std::thread::panicking() {
                env::panic_now(env::SimStop);
            }
            return;
        }
        s.steps += 1;
        s.points[why as usize] += 1;
        match why {
            Why::Blocked => {
                s.contended += 1;
                s.st[me] = Th::Blocked(addr);
            }
            Why::Unlock => {
                s.locks = s.locks.saturating_sub(1);
                for t in s.st.iter_mut() {
                    if *t == Th::Blocked(addr) {
                        *t = Th::Ready;
                    }
                }
            }
            _ => {
                if s.st[me] == Th::Stalled {
                    s.st[me] = Th::Ready;
                    if s.cur == usize::MAX {
                        s.set_cur(me);
                    }
                }
            }
        }
        if s.steps > POINT_CAP {
            s.stop(format!("no end after {POINT_CAP} scheduling points"));
        } else if s.cur == me {
            match s.choose(Some(me)) {
                Some(n) => {
                    s.set_cur(n);
                    let h = s.hash;
                    s.hash = mix(h ^ ((n as u64) << 8) ^ why as u64);
                    if n != me {
                        self.cv[n].notify_all();
                    }
                }
                None if s.st.contains(&Th::Stalled) => {
                    // somebody waits for something that is not simulated
                    s.cur = usize::MAX;
                }
                None => {
                    let st = format!("{:?}", s.st.iter().map(|t| matches!(t, Th::Blocked(_))).collect::<Vec<_>>());
                    s.stop(format!("deadlock: every thread waits for a lock (blocked: {st})"))
                }
            }
        }
        if s.abort {
            self.all();
        }
        s = self.wait_turn(me, s);
        let abort = s.abort;
        if why == Why::Lock && !abort {
            s.locks += 1;
        }
        drop(s);
        if abort && why != Why::Unlock && !std::thread::panicking() {
            env::panic_now(env::SimStop);
        }
    }

    fn finish(&self, me: usize) {
        let mut s = lock(&self.s);
        let (f, c) = env::take_totals();
        for k in 0..NK {
            for x in 0..NF {
                s.faults[k][x] += f[k][x];
            }
        }
        s.calls += c;
        s.st[me] = Th::Done;
        if s.cur == me || s.cur == usize::MAX {
            match s.choose(None) {
                Some(n) => {
                    s.set_cur(n);
                    self.cv[n].notify_all();
                }
                None => {
                    s.cur = usize::MAX;
                    if !s.st.contains(&Th::Stalled) && s.st.iter().any(|t| matches!(t, Th::Blocked(_))) {
                        s.stop("a thread waits for a lock that nobody will release".into());
                        self.all();
                    }
                }
            }
        }
        self.main.notify_all();
    }
}

/// A point where another thread may go on.
pub fn yield_point(why: Why) {
    at(why, 0);
}

fn at(why: Why, addr: usize) -> bool {
    let me = ME.with(|m| m.borrow().clone());
    match me {
        Some((s, i)) => {
            s.point(i, why, addr);
            true
        }
        // only one thread is running, so nobody else can hold the lock
        None if why == Why::Blocked => panic!("deadlock: a lock is taken again by the thread that holds it"),
        None => false,
    }
}

#[cfg(neure_sim)]
fn hook(p: neure::sim::Point, addr: usize) -> bool {
    use neure::sim::Point;
    at(
        match p {
            Point::Lock => Why::Lock,
            Point::Blocked => Why::Blocked,
            Point::Unlock => Why::Unlock,
            Point::Load => Why::Load,
            Point::Store => Why::Store,
        },
        addr,
    )
}

pub fn install() {
    #[cfg(neure_sim)]
    neure::sim::set_hook(hook);
}

/// Whether a thread sleeps in the kernel. The thread whose turn it is never does, however
/// busy the machine is, unless it waits for something that is not simulated.
fn is_asleep(stat: &str) -> bool {
    match std::fs::read_to_string(stat) {
        Ok(s) => matches!(s.rsplit(')').next().and_then(|r| r.trim().chars().next()), Some('S')),
        Err(_) => true,
    }
}

fn all_asleep(s: &S) -> bool {
    (0..s.st.len()).all(|i| s.st[i] == Th::Done || is_asleep(&s.stat[i]))
}

/// Runs the bodies as threads under the tape's schedule.
pub fn run<'s>(tape: &mut Tape, bodies: Vec<Box<dyn FnOnce() + Send + 's>>) -> Report {
    let n = bodies.len();
    let strat = match tape.draw(5) {
        0 => Strat::Random(2),
        1 => Strat::Random(6),
        2 => Strat::Random(20),
        _ => {
            let mut prio: Vec<u32> = (0..n as u32).map(|i| 1000 + i).collect();
            for i in (1..n).rev() {
                let j = tape.draw(i as u32 + 1) as usize;
                prio.swap(i, j);
            }
            let span = [30, 100, 400][tape.draw(3) as usize];
            let change = (0..1 + tape.draw(5)).map(|_| tape.draw(span) as u64).collect();
            Strat::Prio { prio, change, low: 900 }
        }
    };
    let sched = Arc::new(Sched {
        s: Mutex::new(S {
            cur: usize::MAX,
            st: vec![Th::Ready; n],
            tape: std::mem::replace(tape, Tape::replay(vec![])),
            strat,
            steps: 0,
            run_len: 0,
            switches: 0,
            preempt_in_lock: 0,
            contended: 0,
            points: [0; 6],
            hash: 7,
            abort: false,
            problem: None,
            faults: [[0; NF]; NK],
            calls: 0,
            schedule: vec![],
            locks: 0,
            stalls: 0,
            stat: vec![String::new(); n],
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        main: Condvar::new(),
    });
    std::thread::scope(|scope| {
        for (i, b) in bodies.into_iter().enumerate() {
            let sched = sched.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(scope, move || {
                    let me = std::fs::read_link("/proc/thread-self").map_or(String::new(), |p| {
                        format!("/proc/{}/stat", p.display())
                    });
                    let mut s = lock(&sched.s);
                    s.stat[i] = me;
                    let s = sched.wait_turn(i, s);
                    drop(s);
                    ME.with(|m| *m.borrow_mut() = Some((sched.clone(), i)));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                    ME.with(|m| *m.borrow_mut() = None);
                    env::swap(env::Env::new());
                    if let Err(e) = r
                        && !e.is::<env::SimStop>()
                    {
                        let mut s = lock(&sched.s);
                        s.stop(format!("a thread panicked: {}", crate::run::payload(&*e)));
                        sched.all();
                    }
                    sched.finish(i);
                })
                .expect("thread");
        }
        let mut s = lock(&sched.s);
        if let Some(f) = s.choose(None) {
            s.set_cur(f);
            sched.cv[f].notify_all();
        }
        let mut last = (0, Instant::now());
        // how often in a row the thread whose turn it is was seen asleep
        let mut asleep = 0;
        while s.st.iter().any(|t| *t != Th::Done) {
            let (g, late) =
                sched.main.wait_timeout(s, Duration::from_millis(20)).unwrap_or_else(|e| e.into_inner());
            s = g;
            if s.steps != last.0 {
                last = (s.steps, Instant::now());
                asleep = 0;
                continue;
            }
            let idle = last.1.elapsed();
            if idle > Duration::from_secs(3) && s.st.iter().any(|t| *t != Th::Done) && all_asleep(&s) {
                let msg = s.problem.clone().unwrap_or_else(|| "a thread is blocked for ever".into());
                drop(s);
                if let Some(f) = STUCK.get() {
                    f(&msg);
                }
                std::process::abort();
            }
            if late.timed_out() {
                asleep = if s.cur == usize::MAX || is_asleep(&s.stat[s.cur]) { asleep + 1 } else { 0 };
            }
            let cur = s.cur;
            if asleep >= 10 && !s.abort && (cur == usize::MAX || s.st[cur] == Th::Ready) {
                // the thread waits for something that is not simulated: let the others go on
                if cur != usize::MAX {
                    s.st[cur] = Th::Stalled;
                    s.stalls += 1;
                }
                if let Some(n) = s.choose(None) {
                    s.set_cur(n);
                    sched.cv[n].notify_all();
                } else {
                    s.cur = usize::MAX;
                }
                asleep = 0;
            } else if s.cur == usize::MAX && !s.abort
                && let Some(n) = s.choose(None)
            {
                s.set_cur(n);
                sched.cv[n].notify_all();
            }
        }
    });
    let mut s = lock(&sched.s);
    *tape = std::mem::replace(&mut s.tape, Tape::replay(vec![]));
    env::add_totals(&s.faults, s.calls);
    Report {
        problem: s.problem.take(),
        steps: s.steps,
        switches: s.switches,
        contended: s.contended,
        preempt_in_lock: s.preempt_in_lock,
        points: s.points,
        hash: s.hash,
        schedule: s.schedule.iter().map(|(t, n)| format!("T{t}x{n}")).collect::<Vec<_>>().join(" "),
        stalls: s.stalls,
    }
}
