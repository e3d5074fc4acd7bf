//! The properties of several threads at a time: every run is under the scheduler.

use crate::ast::*;
use crate::build::{P, build, build_with, wrap};
use crate::ctxs::{ItemT, SimH, Un};
use crate::env::{self, Bad, Fault, K, PF};
use crate::model::Skip;
use crate::run::*;
use crate::sched;
use crate::tape::Tape;
use crate::value::V;
use neure::ctor::Ctor;
use neure::err::Error;
use neure::neu::Neu;
use neure::prelude::*;
use neure::regex::Regex;
use std::collections::HashSet;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// What a thread hands back.
#[derive(Clone, Debug)]
pub struct Out {
    ret: Ret,
    pos: usize,
    calls: u64,
    bad: Option<(Bad, String)>,
}

impl Out {
    fn of(o: Obs) -> Out {
        Out { ret: o.ret, pos: o.pos, calls: o.env.calls, bad: o.env.bad }
    }
    fn same(&self, o: &Out) -> bool {
        self.pos == o.pos && same_ret(&self.ret, &o.ret)
    }
    fn show(&self) -> String {
        format!("{}, position {}", show_ret(&self.ret), self.pos)
    }
}

type Slot<T> = std::sync::Mutex<Vec<T>>;

fn push<T>(s: &Slot<T>, x: T) {
    s.lock().unwrap_or_else(|e| e.into_inner()).push(x);
}

fn take<T>(s: Slot<T>) -> Vec<T> {
    s.into_inner().unwrap_or_else(|e| e.into_inner())
}

/// What the statistics and the report say about a schedule.
fn scheduled(rep: &mut Rep, r: &sched::Report, threads: usize) {
    rep.inter.push(r.hash);
    rep.steps += r.steps;
    rep.hit(format!("threads:{threads}"));
    for (k, v) in [
        ("context switches", r.switches),
        ("lock contended", r.contended),
        ("switched away while holding a lock", r.preempt_in_lock),
        ("stalled thread", r.stalls),
    ] {
        if v > 0 {
            *rep.hits.entry(k.into()).or_default() += v;
        }
    }
    for (i, k) in ["callback", "lock", "blocked", "unlock", "load", "store"].iter().enumerate() {
        if r.points[i] > 0 {
            *rep.hits.entry(format!("scheduling point:{k}")).or_default() += r.points[i];
        }
    }
    rep.say(|| format!("schedule: {} ({} points, {} switches)", r.schedule, r.steps, r.switches));
}

/// A piece of work of one thread.
#[derive(Clone)]
struct Task {
    /// input, context, start, faults and mode; the grammar is the shared one
    s: Scene,
    idx: Option<(u64, Fault, usize)>,
}

impl Task {
    fn run<'a, C: Mk<'a>>(&self, p: &P<'a, C>, src: &'a str, skip: Skip) -> Out {
        let mut ctx = C::at(src, skip, self.s.start);
        let mut e = self.s.env();
        e.idx = self.idx;
        Out::of(run_one(p, &mut ctx, self.s.mode, e))
    }
    fn show(&self) -> String {
        format!("{}{}", self.s.show_input(), self.idx.map_or(String::new(), |i| format!("; {:?} from callback {} on", i.1, i.0)))
    }
}

/// The work of all threads on one grammar, or None when something is too big.
fn tasks(t: &mut Tape, o: &Opts, node: &Node, ck: CK, rx: bool, panics: bool, threads: usize) -> Option<Vec<Vec<Task>>> {
    let mut all = vec![];
    for _ in 0..threads {
        let mut mine = vec![];
        for _ in 0..1 + t.draw(2) {
            let (src, start) = gen_src(t, node, ck.skip(), o.max_len);
            let mode = if rx && t.draw(4) < 3 { [Mode::Mat, Mode::Rx][t.draw(2) as usize] } else { Mode::Con };
            let hm = if mid_ok(node) { 0 } else { t.draw(3) as u8 };
            let mut s = Scene { node: node.clone(), src: src.into(), ck, start, pf: vec![], mode, hm, uw: false };
            let n = [0, 0, 1, 2][t.draw(4) as usize];
            add_faults(t, &mut s, n, &|_, f| panics || f != Fault::Panic)?;
            let idx = match t.draw(6) {
                4 => Some((t.draw(40) as u64, Fault::Err, env::any_err(t, 1500))),
                5 if panics => Some((t.draw(40) as u64, Fault::Panic, 0)),
                _ => None,
            };
            mine.push(Task { s, idx });
        }
        all.push(mine);
    }
    Some(all)
}

fn case(rep: &mut Rep, tasks: &[Vec<Task>]) {
    for th in tasks {
        rep.case(th.len() as u64);
        for x in th {
            rep.case(x.s.hash() ^ x.idx.map_or(0, |i| (i.0 + 1) << 8 ^ i.1 as u64));
        }
    }
}

/// Runs tasks on one shared parser, each against the same task alone on a parser of its own.
struct Share<'s> {
    node: &'s Node,
    tasks: &'s [Vec<Task>],
    tape: &'s mut Tape,
    sync_rec: bool,
    alone_sync: bool,
}

type Shared = (Vec<Vec<Out>>, Vec<Vec<Out>>, sched::Report);

impl Job for Share<'_> {
    type R = Shared;
    fn go<'a, C: Mk<'a>>(self, _: &'a str, skip: Skip) -> Shared {
        // one lifetime for all inputs
        let src = |x: &Task| -> &'a str { unsafe { &*(&*x.s.src as *const str) } };
        let mut alone = vec![];
        for th in self.tasks {
            let mut v = vec![];
            for x in th {
                let fresh = build_with::<C>(self.node, |b| b.sync_rec = self.alone_sync);
                v.push(x.run(&fresh.p, src(x), skip));
            }
            alone.push(v);
        }
        let shared = build_with::<C>(self.node, |b| b.sync_rec = self.sync_rec);
        let got: Vec<Slot<Out>> = self.tasks.iter().map(|_| Default::default()).collect();
        let p = &shared.p;
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (th, got) in self.tasks.iter().zip(&got) {
            bodies.push(Box::new(move || {
                for x in th {
                    push(got, x.run(p, src(x), skip));
                }
            }));
        }
        let r = sched::run(self.tape, bodies);
        (alone, got.into_iter().map(take).collect(), r)
    }
}

fn head(node: &Node, ck: CK, tasks: &[Vec<Task>], r: &sched::Report) -> String {
    let mut o = format!("{} ({}) shared by {} threads", node.show(), ck.name(), tasks.len());
    for (i, th) in tasks.iter().enumerate() {
        for x in th {
            o.push_str(&format!("\n  T{i}: {}", x.show()));
        }
    }
    format!("{o}\n  schedule {}", r.schedule)
}

/// Compares what every thread got with what it gets alone.
fn judge(rep: &mut Rep, node: &Node, ck: CK, tasks: &[Vec<Task>], (alone, got, r): Shared) -> Res {
    scheduled(rep, &r, tasks.len());
    let head = || head(node, ck, tasks, &r);
    for (i, th) in tasks.iter().enumerate() {
        for (j, x) in th.iter().enumerate() {
            let Some(g) = got[i].get(j) else { continue };
            account_ret(rep, &x.s, &g.ret, g.calls);
            rep.say(|| format!("T{i}.{j} {}: {}", x.show(), g.show()));
            if let Ret::Panic(PK::Lib(m)) = &g.ret {
                return Err(format!("{}\n  T{i}.{j}: the library panicked: {m}", head()));
            }
            if let Some((Bad::Other, m)) = &g.bad {
                return Err(format!("{}\n  T{i}.{j}: {m}", head()));
            }
            if !g.same(&alone[i][j]) {
                return Err(format!("{}\n  T{i}.{j}: {}, but alone {}", head(), g.show(), alone[i][j].show()));
            }
        }
    }
    if let Some(p) = &r.problem {
        return Err(format!("{}\n  {p}", head()));
    }
    Ok(())
}

fn how_many(t: &mut Tape) -> usize {
    [2, 2, 3, 4][t.draw(4) as usize]
}

/// P18: one parser, several threads.
pub fn p18(t: &mut Tape, rep: &mut Rep) -> Res {
    let ck = *t.pick(&CK_ALL);
    let panics = t.draw(2) == 1;
    let o = Opts {
        sync_only: true, mutex: !panics, nodes: 10, depth: 4, max_len: 20,
        focus: &["hold", "rxwrap"], ..Opts::default()
    };
    let rx = t.draw(3) == 0;
    let prof = o.profile(t, ck);
    let node = Gen::new(t, prof).root(rx);
    let threads = how_many(t);
    let Some(tasks) = tasks(t, &o, &node, ck, rx, panics, threads) else {
        rep.discard = true;
        return Ok(());
    };
    case(rep, &tasks);
    let x = dispatch(ck, "", Share { node: &node, tasks: &tasks, tape: t, sync_rec: true, alone_sync: true });
    judge(rep, &node, ck, &tasks, x)
}

/// P19: recursion across threads.
pub fn p19(t: &mut Tape, rep: &mut Rep) -> Res {
    if t.draw(6) == 5 {
        return defining(t, rep);
    }
    let ck = *t.pick(&CK_ALL);
    let panics = t.draw(2) == 1;
    let o = Opts {
        sync_only: true, mutex: false, nodes: 10, depth: 4, max_len: 24, focus: &["rec", "ref"],
        ..Opts::default()
    };
    let rx = t.draw(3) == 0;
    let usual = t.draw(5);
    let node = if usual >= 3 {
        nested(t)
    } else {
        let prof = o.profile(t, ck);
        Gen::new(t, prof).root_of(&["rec"], rx)
    };
    if !node.has(&|n| matches!(n, N::Ref(_))) {
        rep.discard = true;
        return Ok(());
    }
    let threads = [1, 1, 2, 3, 4][t.draw(5) as usize];
    let tasks = if usual == 4 { Some(deep(t, &node, ck, threads)) } else { tasks(t, &o, &node, ck, rx, panics, threads) };
    let Some(tasks) = tasks else {
        rep.discard = true;
        return Ok(());
    };
    case(rep, &tasks);
    if usual == 4 {
        let n = tasks.iter().flatten().map(|x| x.s.src.len()).sum::<usize>() / 2;
        rep.hit(format!("nesting of all threads together below:{}", [20, 100, 400, 2000].iter().find(|x| n < **x).unwrap_or(&9999)));
    }
    let x = dispatch(ck, "", Share { node: &node, tasks: &tasks, tape: t, sync_rec: true, alone_sync: false });
    judge(rep, &node, ck, &tasks, x)
}

/// Deep inputs for `nested`: the threads meet in the handler, at the bottom.
fn deep(t: &mut Tape, node: &Node, ck: CK, threads: usize) -> Vec<Vec<Task>> {
    let upto = *t.pick(&[10, 60, 700]);
    let one = |t: &mut Tape| {
        let n = 1 + t.draw(upto) as usize;
        let cut = t.draw(5);
        let src = format!("{}a{}", "(".repeat(n), ")".repeat(n - (cut == 3) as usize));
        let mut s = Scene { node: node.clone(), src: src.into(), ck, start: 0, pf: vec![], mode: Mode::Con, hm: 0, uw: false };
        if cut == 4 {
            let f = [Fault::Err, Fault::Panic][t.draw(2) as usize];
            s.pf.push(PF { k: K::Handler, site: 0, key: (n as u64) << 20 | 1, f, uid: 1000, once: false });
        }
        Task { s, idx: None }
    };
    (0..threads).map(|_| (0..1 + t.draw(2)).map(|_| one(t)).collect()).collect()
}

/// `rec(x) = "(" x ")" or "a"`, the usual suspect.
pub fn nested(t: &mut Tape) -> Node {
    let lit = |id, i| Box::new(Node { id, k: N::Lit { form: 0, i } });
    let inner = Node { id: 2, k: N::Enclose(Box::new(Node { id: 3, k: N::Ref(1) }), lit(4, 3), lit(5, 4)) };
    let body = match t.draw(3) {
        0 => N::Or(Box::new(inner), lit(7, 0)),
        1 => N::Longest(Box::new(inner), lit(7, 0)),
        _ => N::Alts(t.draw(3) as u8, t.draw(2) == 1, vec![inner, *lit(7, 0)]),
    };
    Node { id: 1, k: N::Rec(Box::new(Node { id: 6, k: body })) }
}

/// The self-reference is given to other threads while it is still being defined.
fn defining(t: &mut Tape, rep: &mut Rep) -> Res {
    let ck = *t.pick(&CK_ALL);
    let o = Opts { sync_only: true, mutex: false, nodes: 6, depth: 3, max_len: 16, without: &["rec", "ref"], ..Opts::default() };
    let prof = o.profile(t, ck);
    let node = Gen::new(t, prof).root(false);
    let threads = 1 + t.draw(3) as usize;
    let Some(tasks) = tasks(t, &o, &node, ck, false, false, threads) else {
        rep.discard = true;
        return Ok(());
    };
    let pause = t.draw(6);
    let api = t.draw(3);
    case(rep, &tasks);
    rep.case(pause as u64 * 3 + api as u64);
    struct Defining<'s>(&'s Node, &'s [Vec<Task>], &'s mut Tape, u32, u32);
    type Tried = (bool, Out);
    impl Job for Defining<'_> {
        type R = (Vec<Vec<Out>>, Vec<Vec<Tried>>, sched::Report);
        fn go<'a, C: Mk<'a>>(self, _: &'a str, skip: Skip) -> Self::R {
            let Defining(node, tasks, tape, pause, api) = self;
            let src = |x: &Task| -> &'a str { unsafe { &*(&*x.s.src as *const str) } };
            let body = build::<C>(node);
            let alone: Vec<Vec<Out>> =
                tasks.iter().map(|th| th.iter().map(|x| x.run(&body.p, src(x), skip)).collect()).collect();
            let early: std::sync::OnceLock<P<'a, C>> = std::sync::OnceLock::new();
            let done = std::sync::atomic::AtomicBool::new(false);
            let got: Vec<Slot<Tried>> = tasks.iter().map(|_| Default::default()).collect();
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            let (early, done, body) = (&early, &done, &body.p);
            bodies.push(Box::new(move || {
                let def = |me: neure::regex::RecursiveCtorSync<'a, C, V, SimH>| {
                    let _ = early.set(wrap(me, |v| v));
                    for _ in 0..pause {
                        sched::yield_point(sched::Why::Callback);
                    }
                    body.clone()
                };
                use neure::regex::{RecParserSync, RecursiveParserSync};
                let r = match api {
                    0 => neure::regex::rec_parser_sync::<C, V, P<'a, C>, SimH>(def),
                    1 => <RecParserSync as RecursiveParserSync<'a, C>>::build::<V, P<'a, C>, SimH, _>(def),
                    _ => <RecParserSync as RecursiveParserSync<'a, C>>::build_with::<V, P<'a, C>, SimH, _>(def),
                };
                sched::yield_point(sched::Why::Callback);
                done.store(true, SeqCst);
                drop(r);
            }));
            for (th, got) in tasks.iter().zip(&got) {
                bodies.push(Box::new(move || {
                    let me = loop {
                        match early.get() {
                            Some(p) => break p,
                            None => sched::yield_point(sched::Why::Callback),
                        }
                    };
                    for x in th {
                        for _ in 0..3 {
                            let ready = done.load(SeqCst);
                            push(got, (ready, x.run(me, src(x), skip)));
                        }
                    }
                    while !done.load(SeqCst) {
                        sched::yield_point(sched::Why::Callback);
                    }
                    if let Some(x) = th.last() {
                        push(got, (true, x.run(me, src(x), skip)));
                    }
                }));
            }
            let r = sched::run(tape, bodies);
            (alone, got.into_iter().map(take).collect(), r)
        }
    }
    let (alone, got, r) = dispatch(ck, "", Defining(&node, &tasks, t, pause, api));
    scheduled(rep, &r, tasks.len() + 1);
    rep.hit("used while being defined");
    let head = || head(&node, ck, &tasks, &r);
    for (i, th) in tasks.iter().enumerate() {
        let mut defined = false;
        for (j, (ready, g)) in got[i].iter().enumerate() {
            let j = (j / 3).min(th.len() - 1);
            account_ret(rep, &th[j].s, &g.ret, g.calls);
            let right = g.same(&alone[i][j]);
            let early_err = matches!(g.ret, Ret::Err(_)) && g.pos == th[j].s.start;
            // once it has answered as defined it stays defined
            if right && !early_err {
                defined = true;
            }
            if !(right || early_err && !ready && !defined) {
                return Err(format!(
                    "recursive definition (api {api}), used while it is {}: {}\n  T{}.{j}: {}, but the definition gives {}",
                    if *ready { "finished" } else { "being made" }, head(), i + 1, g.show(), alone[i][j].show()
                ));
            }
        }
    }
    if let Some(p) = &r.problem {
        return Err(format!("used while being defined: {}\n  {p}", head()));
    }
    Ok(())
}

// ---- P20

#[derive(Clone, Debug)]
struct Check {
    item: u32,
    beg: u64,
    end: u64,
    /// None: a callback panicked
    res: Option<bool>,
}

/// Writes down every check of the unit inside.
struct Watch<'w, N> {
    n: &'w N,
    log: &'w Slot<Check>,
    clock: &'w AtomicU64,
}

impl<T: ItemT, N: Neu<T>> Neu<T> for Watch<'_, N> {
    fn is_match(&self, o: &T) -> bool {
        let beg = self.clock.fetch_add(1, SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.n.is_match(o)));
        let end = self.clock.fetch_add(1, SeqCst);
        match r {
            Ok(r) => {
                push(self.log, Check { item: o.code(), beg, end, res: Some(r) });
                r
            }
            Err(e) => {
                if !e.is::<env::SimStop>() {
                    push(self.log, Check { item: o.code(), beg, end, res: None });
                }
                std::panic::resume_unwind(e)
            }
        }
    }
    fn min_length(&self) -> usize {
        self.n.min_length()
    }
}

/// Is there an order of the checks, within their times, that a sequential unit explains?
fn linear(logs: &[Vec<Check>], count: usize, pre: &dyn Fn(u32) -> bool, unit: &dyn Fn(u32) -> bool) -> bool {
    type At = (Vec<u8>, usize, bool);
    let mut seen: HashSet<At> = HashSet::new();
    let mut stack: Vec<At> = vec![(vec![0; logs.len()], count, false)];
    while let Some(s) = stack.pop() {
        if !seen.insert(s.clone()) {
            continue;
        }
        let (at, left, stopped) = s;
        let next: Vec<(usize, &Check)> =
            logs.iter().enumerate().filter_map(|(i, l)| l.get(at[i] as usize).map(|c| (i, c))).collect();
        if next.is_empty() {
            return true;
        }
        let first_end = next.iter().map(|x| x.1.end).min().unwrap();
        for (i, c) in next {
            if c.beg > first_end {
                continue;
            }
            let mut to = at.clone();
            to[i] += 1;
            let (res, l, st) = if stopped {
                (false, left, true)
            } else if left == 0 {
                (unit(c.item), 0, false)
            } else {
                let r = pre(c.item);
                (r, left - 1, !r)
            };
            match c.res {
                Some(x) => {
                    if x == res {
                        stack.push((to, l, st));
                    }
                }
                None => {
                    // it may or may not have counted
                    stack.push((to.clone(), l, st));
                    stack.push((to, left, stopped));
                }
            }
        }
    }
    false
}

pub fn p20(t: &mut Tape, rep: &mut Rep) -> Res {
    if t.draw(8) == 7 {
        return if t.draw(2) == 0 { counting::<char>(t, rep, true) } else { counting::<u8>(t, rep, false) };
    }
    let text = t.draw(4) < 3;
    let ck = if text { CK::Chars } else { CK::Bytes };
    let prof = Opts { nodes: 3, depth: 2, ..Opts::default() }.profile(t, ck);
    let mut units = vec![];
    for _ in 0..2 {
        let mut g = Gen::new(t, prof.clone());
        let u = loop {
            let n = g.root_of(&["unit"], true);
            if let N::Unit { u, .. } = n.k {
                break u;
            }
        };
        // mostly a user's closure, where another thread can come in between
        units.push(if t.draw(4) < 3 { U::Pred(t.draw(SETS) | t.draw(SETS)) } else { u });
    }
    let count = match t.draw(10) {
        0 => 0,
        1..=3 => 1,
        4..=6 => 2,
        7 | 8 => 3,
        _ => usize::MAX - t.draw(2) as usize,
    };
    let plain = count == 1 && t.draw(2) == 1;
    let threads = how_many(t);
    let parse = t.draw(3) == 2;
    let form = t.draw(5);
    let mut items: Vec<String> = vec![];
    for _ in 0..threads {
        let n = 1 + t.draw(4);
        items.push((0..n).map(|_| loop {
            let c = *t.pick(&ALPHA);
            if text || c.is_ascii() {
                break c;
            }
        }).collect());
    }
    // a panic of one of the closures in one thread
    let panic = if t.draw(5) == 4 { Some((t.draw(threads as u32) as usize, t.draw(6) as u64)) } else { None };
    rep.case(crate::tape::hash_str(&format!("{units:?}{count}{items:?}{parse}{form}{panic:?}{text}")));
    struct Pre<'s> {
        units: &'s [U],
        count: usize,
        plain: bool,
        items: &'s [String],
        parse: Option<u32>,
        panic: Option<(usize, u64)>,
        tape: &'s mut Tape,
    }
    type Got = (Vec<Vec<Check>>, Vec<Vec<Out>>, sched::Report);
    impl Job for Pre<'_> {
        type R = Got;
        fn go<'a, C: Mk<'a>>(self, _: &'a str, skip: Skip) -> Got {
            let pre: Un<C::Item> = C::Item::unit(&self.units[0], 1);
            let unit: Un<C::Item> = C::Item::unit(&self.units[1], 2);
            let unit = if self.plain {
                neure::neu::prefix_sync(pre, unit)
            } else {
                neure::neu::prefix_sync_cnt(pre, self.count, unit)
            };
            let clock = AtomicU64::new(0);
            let logs: Vec<Slot<Check>> = self.items.iter().map(|_| Default::default()).collect();
            let outs: Vec<Slot<Out>> = self.items.iter().map(|_| Default::default()).collect();
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for (i, items) in self.items.iter().enumerate() {
                let (log, out) = (&logs[i], &outs[i]);
                let w = Watch { n: &unit, log, clock: &clock };
                let (parse, panic) = (self.parse, self.panic);
                let src: &'a str = unsafe { &*(items.as_str() as *const str) };
                bodies.push(Box::new(move || {
                    let mut e = env::Env::new();
                    if let Some((th, n)) = panic
                        && th == i
                    {
                        e.idx = Some((n, Fault::Panic, 0));
                    }
                    let mut ctx = C::mk(src, skip);
                    let Some(form) = parse else {
                        env::swap(e);
                        let mut p = 0;
                        while let Some(c) = ctx.code_at(p) {
                            let item = <C::Item as ItemT>::of(c);
                            let r = guarded(|| w.is_match(&item));
                            p += if C::TEXT { char::from_u32(c).map_or(1, |c| c.len_utf8()) } else { 1 };
                            if let Err(pk @ PK::Lib(_)) = r {
                                push(out, Out { ret: Ret::Panic(pk), pos: 0, calls: 0, bad: None });
                            }
                        }
                        env::swap(env::Env::new());
                        return;
                    };
                    let o = match form {
                        0 => run_rx(&NeuIntoRegexOps::<C>::many0(w), &mut ctx, e),
                        1 => run_rx(&NeuIntoRegexOps::<C>::many1(w), &mut ctx, e),
                        2 => run_rx(&NeuIntoRegexOps::<C>::between::<1, 3>(w), &mut ctx, e),
                        3 => run_rx(&NeuIntoRegexOps::<C>::times(w, 0..3), &mut ctx, e),
                        _ => {
                            let r = NeuIntoRegexOps::<C>::once(w);
                            let mut e = Some(e);
                            let mut last = run_rx(&r, &mut ctx, e.take().unwrap());
                            for _ in 0..2 {
                                push(out, Out::of(last));
                                last = run_rx(&r, &mut ctx, env::Env::new());
                            }
                            last
                        }
                    };
                    push(out, Out::of(o));
                }));
            }
            let r = sched::run(self.tape, bodies);
            (logs.into_iter().map(take).collect(), outs.into_iter().map(take).collect(), r)
        }
    }
    let (logs, outs, r) = dispatch(ck, "", Pre {
        units: &units, count, plain, items: &items, parse: parse.then_some(form), panic, tape: t,
    });
    scheduled(rep, &r, threads);
    rep.hit(format!("prefix count:{}", if count > 9 { "huge".into() } else { count.to_string() }));
    rep.hit(if parse { "through patterns" } else { "direct checks" });
    rep.attempts += logs.iter().map(|l| l.len() as u64).sum::<u64>();
    let head = || {
        let mut o = format!("prefix_sync_cnt({}, {count}, {})", units[0].show(), units[1].show());
        for (i, l) in logs.iter().enumerate() {
            let l: Vec<String> = l
                .iter()
                .map(|c| format!("{:?}@{}-{}={:?}", char::from_u32(c.item).unwrap_or('?'), c.beg, c.end, c.res))
                .collect();
            o.push_str(&format!("\n  T{i} ({:?}): {}", items[i], l.join(" ")));
        }
        format!("{o}\n  schedule {}", r.schedule)
    };
    rep.say(head);
    for (i, os) in outs.iter().enumerate() {
        for o in os {
            if let Ret::Panic(PK::Lib(m)) = &o.ret {
                return Err(format!("{}\n  T{i}: the library panicked: {m}", head()));
            }
        }
    }
    if let Some(p) = &r.problem {
        return Err(format!("{}\n  {p}", head()));
    }
    let ask = |u: &U, c: u32| u.accepts(c, text, &mut |_| false);
    if !linear(&logs, count, &|c| ask(&units[0], c), &|c| ask(&units[1], c)) {
        return Err(format!("{}\n  no order of these checks explains the answers", head()));
    }
    Ok(())
}

/// What both kinds of prefix unit offer.
trait Counts<T>: Neu<T> + Clone {
    fn set(&mut self, prefix: bool, u: Un<T>);
    fn swap(&mut self, prefix: bool, u: Un<T>) -> Un<T>;
}

macro_rules! counts {
    ($t:ident) => {
        impl<T: ItemT> Counts<T> for neure::neu::$t<Un<T>, Un<T>, T> {
            fn set(&mut self, prefix: bool, u: Un<T>) {
                if prefix { self.set_prefix(u) } else { self.set_unit(u) };
            }
            fn swap(&mut self, prefix: bool, u: Un<T>) -> Un<T> {
                std::mem::replace(if prefix { self.prefix_mut() } else { self.unit_mut() }, u)
            }
        }
    };
}
counts!(Prefix);
counts!(PrefixSync);

/// One thread: checks, some of which panic, of both kinds of unit and of copies of them.
fn counting<T: ItemT>(t: &mut Tape, rep: &mut Rep, text: bool) -> Res {
    struct One<T> {
        us: [U; 2],
        // what may be left to be judged by the prefix, None when a check of it has failed
        left: [Vec<Option<usize>>; 2],
        plain: neure::neu::Prefix<Un<T>, Un<T>, T>,
        sync: neure::neu::PrefixSync<Un<T>, Un<T>, T>,
        name: String,
    }
    let gen_u = |t: &mut Tape| {
        if t.draw(4) == 3 { [U::Alpha, U::Digit, U::Ch('a'), U::Never][t.draw(4) as usize].clone() } else { U::Pred(t.draw(SETS) | t.draw(SETS)) }
    };
    let us = [gen_u(t), gen_u(t)];
    let n = [0, 1, 1, 2, 3, 4, usize::MAX, usize::MAX - 1][t.draw(8) as usize];
    let make = |us: &[U; 2]| (T::unit(&us[0], 1), T::unit(&us[1], 2));
    let ((a, b), (c, d)) = (make(&us), make(&us));
    let mut all = vec![One {
        plain: if n == 1 { neure::neu::prefix(a, b) } else { neure::neu::prefix_cnt(a, n, b) },
        sync: if n == 1 { neure::neu::prefix_sync(c, d) } else { neure::neu::prefix_sync_cnt(c, n, d) },
        left: [vec![Some(n)], vec![Some(n)]],
        us,
        name: "u".into(),
    }];
    let mut acc = format!("u = prefix_cnt({}, {n}, {})", all[0].us[0].show(), all[0].us[1].show());
    let mut id = 2;
    for _ in 0..1 + t.draw(12) {
        let i = t.draw(all.len() as u32) as usize;
        match t.draw(8) {
            6 if all.len() < 4 => {
                let o = &all[i];
                let name = format!("{}{}", o.name, (b'a' + all.len() as u8) as char);
                acc.push_str(&format!("; {name} = {}.clone()", o.name));
                let new = One { us: o.us.clone(), left: o.left.clone(), plain: o.plain.clone(), sync: o.sync.clone(), name };
                all.push(new);
                rep.hit("counting:copied");
            }
            7 => {
                let u = gen_u(t);
                let (prefix, set) = (t.draw(2) == 0, t.draw(2) == 0);
                id += 1;
                let o = &mut all[i];
                let was = std::mem::replace(&mut o.us[!prefix as usize], u.clone());
                acc.push_str(&format!("; {}.{}{}({})", o.name, if set { "set_" } else { "" }, if prefix { "prefix" } else { "unit" }, u.show()));
                if set {
                    Counts::set(&mut o.plain, prefix, T::unit(&u, id));
                    Counts::set(&mut o.sync, prefix, T::unit(&u, id));
                } else {
                    for old in [Counts::swap(&mut o.plain, prefix, T::unit(&u, id)), Counts::swap(&mut o.sync, prefix, T::unit(&u, id))] {
                        let x = T::of('a' as u32);
                        if guarded(|| old.is_match(&x)).ok() != Some(was.accepts(x.code(), text, &mut |_| false)) {
                            return Err(format!("{acc}\n  what was replaced is not what had been given"));
                        }
                    }
                }
                rep.hit("counting:changed");
            }
            k => {
                let mut c = *t.pick(&ALPHA) as u32;
                if !text && c > 127 {
                    c = 'z' as u32;
                }
                let item = T::of(c);
                let o = &mut all[i];
                let panics = k == 5;
                acc.push_str(&format!("; {}({:?}){}", o.name, char::from_u32(c).unwrap_or('?'), if panics { " a closure panics" } else { "" }));
                let run = |u: &dyn Neu<T>| {
                    let mut e = env::Env::new();
                    if panics {
                        e.idx = Some((0, Fault::Panic, 0));
                    }
                    env::swap(e);
                    let r = guarded(|| u.is_match(&item));
                    env::swap(env::Env::new());
                    r
                };
                let got = [run(&o.plain), run(&o.sync)];
                rep.attempts += 2;
                let mut next = vec![];
                for (g, left) in got.iter().zip(&o.left) {
                    let mut to = vec![];
                    for l in left {
                        let (u, x) = match l {
                            None => (None, false),
                            Some(0) => (Some(&o.us[1]), o.us[1].accepts(c, text, &mut |_| false)),
                            Some(_) => (Some(&o.us[0]), o.us[0].accepts(c, text, &mut |_| false)),
                        };
                        let after = match l {
                            Some(n) if *n > 0 => x.then(|| n - 1),
                            l => *l,
                        };
                        match g {
                            Ok(g) => {
                                if *g == x && !(panics && matches!(u, Some(U::Pred(_)))) {
                                    to.push(after);
                                }
                            }
                            Err(PK::Sim) if panics && matches!(u, Some(U::Pred(_))) => {
                                // it may or may not have counted
                                to.push(after);
                                to.push(*l);
                            }
                            Err(_) => {}
                        }
                    }
                    next.push(to);
                }
                rep.hit(if panics { "counting:panicking check" } else { "counting:check" });
                if next.iter().any(|n| n.is_empty()) {
                    let show = |g: &Result<bool, PK>| match g {
                        Ok(g) => g.to_string(),
                        Err(PK::Sim) => "the closure's panic".into(),
                        Err(e) => format!("{e:?}"),
                    };
                    return Err(format!(
                        "{acc}\n  prefix_cnt: {}, prefix_sync_cnt: {}; with {:?} checks left for the prefix (None: stopped)",
                        show(&got[0]), show(&got[1]), o.left
                    ));
                }
                o.left = <[Vec<Option<usize>>; 2]>::try_from(next).unwrap();
            }
        }
    }
    rep.case(crate::tape::hash_str(&acc));
    rep.say(|| acc.clone());
    Ok(())
}

fn run_rx<'a, C: Mk<'a>, R: Regex<C>>(r: &R, ctx: &mut C, e: env::Env) -> Obs {
    env::swap(e);
    let x = guarded(|| ctx.try_mat(r));
    let ret = match x {
        Ok(Ok(s)) => Ret::Span(s.beg, s.len),
        Ok(Err(e)) => Ret::Err(e),
        Err(p) => Ret::Panic(p),
    };
    Obs { ret, pos: ctx.offset(), env: env::swap(env::Env::new()) }
}

// ---- P21

/// Counts who is inside.
struct Probe<'a, C> {
    p: P<'a, C>,
    st: Arc<ProbeState>,
}

#[derive(Default)]
struct ProbeState {
    inside: AtomicU64,
    entered: AtomicU64,
    overlaps: AtomicU64,
    panicked: AtomicU64,
    after_panic: AtomicU64,
}

thread_local! {
    /// entries by this thread in the current operation
    static MINE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

struct Inside<'s>(&'s ProbeState);

impl<'s> Inside<'s> {
    fn new(s: &'s ProbeState) -> Self {
        if s.inside.fetch_add(1, SeqCst) > 0 {
            s.overlaps.fetch_add(1, SeqCst);
        }
        s.entered.fetch_add(1, SeqCst);
        if s.panicked.load(SeqCst) > 0 {
            s.after_panic.fetch_add(1, SeqCst);
        }
        MINE.with(|m| m.set(m.get() + 1));
        sched::yield_point(sched::Why::Callback);
        Inside(s)
    }
}

impl Drop for Inside<'_> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            self.0.panicked.fetch_add(1, SeqCst);
        } else {
            sched::yield_point(sched::Why::Callback);
        }
        self.0.inside.fetch_sub(1, SeqCst);
    }
}

impl<C> Regex<C> for Probe<'_, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<neure::span::Span, Error> {
        let _i = Inside::new(&self.st);
        self.p.try_parse(ctx)
    }
}
impl<C> Ctor<C, V, SimH> for Probe<'_, C> {
    fn construct(&self, ctx: &mut C, h: &mut SimH) -> Result<V, Error> {
        let _i = Inside::new(&self.st);
        self.p.construct(ctx, h)
    }
}

/// A user's unit that cannot be used twice at a time.
#[derive(Clone, Copy)]
struct ProbeUnit<'s> {
    set: u32,
    st: &'s ProbeState,
}

impl Neu<char> for ProbeUnit<'_> {
    fn is_match(&self, o: &char) -> bool {
        let _i = Inside::new(self.st);
        in_set(self.set, *o as u32)
    }
}

pub fn p21(t: &mut Tape, rep: &mut Rep) -> Res {
    match t.draw(8) {
        0 => return locked_unit(t, rep),
        1 | 2 => return poisoned(t, rep, false),
        3 | 4 => return poisoned(t, rep, true),
        _ => {}
    }
    // locks anywhere in a grammar, nothing panics
    let ck = *t.pick(&CK_ALL);
    let o = Opts {
        sync_only: true, mutex: true, nodes: 8, depth: 4, max_len: 16, without: &["rec", "ref"],
        focus: &["hold", "rxwrap"], ..Opts::default()
    };
    let rx = t.draw(3) == 0;
    let mut prof = o.profile(t, ck);
    prof.mutex = true;
    let mut node = Gen::new(t, prof).root(rx);
    let locks = |n: &N| match n {
        N::Hold(h, _) => HOLD_PLAIN[*h as usize] == "into_mutex",
        N::RxWrap(h, _) => RX_HOLD[*h as usize] == "into_mutex_regex",
        _ => false,
    };
    if !node.has(&locks) {
        let k = if rx && t.draw(2) == 0 {
            N::RxWrap(RX_HOLD.iter().position(|h| *h == "into_mutex_regex").unwrap() as u8, Box::new(node))
        } else {
            N::Hold(HOLD_PLAIN.iter().position(|h| *h == "into_mutex").unwrap() as u8, Box::new(node))
        };
        node = Node { id: 900, k };
    }
    let threads = how_many(t);
    let Some(tasks) = tasks(t, &o, &node, ck, rx, false, threads) else {
        rep.discard = true;
        return Ok(());
    };
    case(rep, &tasks);
    let x = dispatch(ck, "", Share { node: &node, tasks: &tasks, tape: t, sync_rec: true, alone_sync: true });
    rep.hit("locks inside");
    judge(rep, &node, ck, &tasks, x)
}

/// One lock around everything: nobody else is inside, and after a panic inside the lock
/// error is all there is.
fn poisoned(t: &mut Tape, rep: &mut Rep, panics: bool) -> Res {
    let ck = *t.pick(&CK_ALL);
    let o = Opts { sync_only: true, mutex: false, nodes: 8, depth: 3, max_len: 16, without: &["rec", "ref"], ..Opts::default() };
    let rx = t.draw(3) == 0;
    let prof = o.profile(t, ck);
    let node = Gen::new(t, prof).root(rx);
    let threads = how_many(t);
    let Some(tasks) = tasks(t, &o, &node, ck, rx, panics, threads) else {
        rep.discard = true;
        return Ok(());
    };
    // only patterns can be behind a lock for patterns
    let how = if rx && tasks.iter().flatten().all(|x| x.s.mode != Mode::Con) { t.draw(4) } else { t.draw(2) };
    case(rep, &tasks);
    rep.case(how as u64);
    struct Lock<'s>(&'s Node, &'s [Vec<Task>], &'s mut Tape, u32);
    type Tried = (u64, bool, Out);
    impl Job for Lock<'_> {
        type R = (Vec<Vec<Out>>, Vec<Vec<Tried>>, sched::Report, [u64; 4]);
        fn go<'a, C: Mk<'a>>(self, _: &'a str, skip: Skip) -> Self::R {
            let Lock(node, tasks, tape, how) = self;
            let src = |x: &Task| -> &'a str { unsafe { &*(&*x.s.src as *const str) } };
            let mut alone = vec![];
            for th in tasks {
                alone.push(th.iter().map(|x| x.run(&build::<C>(node).p, src(x), skip)).collect());
            }
            let inner = build::<C>(node);
            let st = Arc::new(ProbeState::default());
            let probe = Probe { p: inner.p.clone(), st: st.clone() };
            use neure::prelude::{CtorIntoHelper, RegexIntoHelper};
            let p: P<'a, C> = match how {
                0 => wrap(CtorIntoHelper::<C>::into_mutex(probe), |v| v),
                // clones of the handle share the lock
                1 => wrap(CtorIntoHelper::<C>::into_arc(CtorIntoHelper::<C>::into_mutex(probe)), |v: V| v),
                2 => wrap::<C, _, V>(RegexIntoHelper::<C>::into_mutex_regex(probe), |v| v),
                _ => wrap::<C, _, V>(RegexIntoHelper::<C>::into_arc_regex(RegexIntoHelper::<C>::into_mutex_regex(probe)), |v| v),
            };
            let got: Vec<Slot<Tried>> = tasks.iter().map(|_| Default::default()).collect();
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            let (pr, s) = (&p, &*st);
            for (th, got) in tasks.iter().zip(&got) {
                bodies.push(Box::new(move || {
                    for x in th {
                        MINE.with(|m| m.set(0));
                        // had somebody panicked inside before this even began?
                        let before = s.panicked.load(SeqCst) > 0 && s.inside.load(SeqCst) == 0;
                        let o = x.run(pr, src(x), skip);
                        push(got, (MINE.with(|m| m.get()), before, o));
                    }
                }));
            }
            let r = sched::run(tape, bodies);
            let mut got: Vec<Vec<Tried>> = got.into_iter().map(take).collect();
            if r.problem.is_none() {
                // and once more, after everything
                let last: Vec<Tried> = tasks
                    .iter()
                    .map(|th| {
                        MINE.with(|m| m.set(0));
                        let before = s.panicked.load(SeqCst) > 0;
                        let o = th[0].run(pr, src(&th[0]), skip);
                        (MINE.with(|m| m.get()), before, o)
                    })
                    .collect();
                for (g, l) in got.iter_mut().zip(last) {
                    g.push(l);
                }
            }
            let n = |x: &AtomicU64| x.load(SeqCst);
            (alone, got, r, [n(&st.overlaps), n(&st.panicked), n(&st.after_panic), n(&st.entered)])
        }
    }
    let (alone, got, r, [overlaps, panicked, after, entered]) = dispatch(ck, "", Lock(&node, &tasks, t, how));
    scheduled(rep, &r, threads);
    rep.hit(format!("lock:{}", ["into_mutex", "into_mutex, into_arc", "into_mutex_regex", "into_mutex_regex, into_arc_regex"][how as usize]));
    if panicked > 0 {
        rep.hit("panic while holding the lock");
    }
    let head = || format!("lock {how} around {}", head(&node, ck, &tasks, &r));
    rep.say(|| format!("{entered} entries, {panicked} panics"));
    if overlaps > 0 {
        return Err(format!("{}\n  the parser behind the lock was run by two threads at a time", head()));
    }
    if after > 0 {
        return Err(format!("{}\n  the parser behind the lock was run again after a callback had panicked inside it", head()));
    }
    for (i, th) in tasks.iter().enumerate() {
        for (j, (entries, before, g)) in got[i].iter().enumerate() {
            let j = if j >= th.len() { 0 } else { j };
            let x = &th[j];
            account_ret(rep, &x.s, &g.ret, g.calls);
            rep.say(|| format!("T{i}.{j} {}: entered {entries}, {}", x.show(), g.show()));
            let lock_err = matches!(g.ret, Ret::Err(Error::Mutex)) && g.pos == x.s.start;
            let ok = match &g.ret {
                Ret::Panic(PK::Lib(_)) => false,
                // it ran: as alone
                _ if *entries > 0 => !before && g.same(&alone[i][j]),
                // it could not: only after a panic
                _ if lock_err => {
                    if panicked > 0 {
                        rep.hit("lock error after the panic");
                    }
                    panicked > 0
                }
                // it failed before it came to the lock, in the skip pattern
                _ => g.same(&alone[i][j]) && !g.ret_ok(),
            };
            if !ok {
                return Err(format!(
                    "{}\n  T{i}.{j} (entered {entries} times, {panicked} panics inside): {}, but alone {}",
                    head(), g.show(), alone[i][j].show()
                ));
            }
        }
    }
    if let Some(p) = &r.problem {
        return Err(format!("{}\n  {p}", head()));
    }
    Ok(())
}

impl Out {
    fn ret_ok(&self) -> bool {
        matches!(self.ret, Ret::Span(..) | Ret::Val(_))
    }
}

#[cfg(neure_sim)]
use neure::sim::Mutex as NeuMutex;
#[cfg(not(neure_sim))]
use std::sync::Mutex as NeuMutex;

/// A unit behind a lock.
fn locked_unit(t: &mut Tape, rep: &mut Rep) -> Res {
    let set = t.draw(SETS) | t.draw(SETS);
    let threads = how_many(t);
    let mut srcs = vec![];
    for _ in 0..threads {
        let n = 1 + t.draw(6);
        srcs.push((0..n).map(|_| *t.pick(&ALPHA)).collect::<String>());
    }
    rep.case(crate::tape::hash_str(&format!("{set}{srcs:?}")));
    let st = ProbeState::default();
    let unit = NeuMutex::new(ProbeUnit { set, st: &st });
    let got: Vec<Slot<Out>> = srcs.iter().map(|_| Default::default()).collect();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    struct By<'u, 's>(&'u NeuMutex<ProbeUnit<'s>>);
    impl Neu<char> for By<'_, '_> {
        fn is_match(&self, o: &char) -> bool {
            self.0.is_match(o)
        }
        fn min_length(&self) -> usize {
            Neu::<char>::min_length(self.0)
        }
    }
    for (src, got) in srcs.iter().zip(&got) {
        let u = By(&unit);
        bodies.push(Box::new(move || {
            let mut ctx = CharsCtx::new(src);
            push(got, Out::of(run_rx(&NeuIntoRegexOps::<CharsCtx>::many0(u), &mut ctx, env::Env::new())));
        }));
    }
    let r = sched::run(t, bodies);
    scheduled(rep, &r, threads);
    rep.hit("lock:unit");
    let head = || format!("a unit {set:x} behind a lock on {srcs:?}\n  schedule {}", r.schedule);
    if st.overlaps.load(SeqCst) > 0 {
        return Err(format!("{}\n  it was used by two threads at a time", head()));
    }
    for (i, (src, g)) in srcs.iter().zip(got).enumerate() {
        let g = take(g);
        let want: usize = src.chars().take_while(|c| in_set(set, *c as u32)).map(|c| c.len_utf8()).sum();
        for g in g {
            rep.attempts += 1;
            if !matches!(g.ret, Ret::Span(0, l) if l == want) || g.pos != want {
                return Err(format!("{}\n  T{i}: {}, expected 0..{want}", head(), g.show()));
            }
        }
    }
    if let Some(p) = &r.problem {
        return Err(format!("{}\n  {p}", head()));
    }
    Ok(())
}
