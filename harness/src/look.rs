//! Histories on several contexts: what they are and what they show (P24).

use crate::ast::*;
use crate::build::build;
use crate::ctxs::{ItemT, SimH};
use crate::env::{self, Env, Fault};
use crate::forms::Only;
use crate::model::Skip;
use crate::run::*;
use crate::tape::{Tape, hash_str};
use neure::ctx::{CtxGuard, MatchMulti};
use neure::err::Error;
use neure::prelude::*;
use neure::span::Span;

const CONTEXTS: [CK; 14] = [
    CK::Chars, CK::Bytes, CK::TWs, CK::BWs, CK::TCb, CK::BCb, CK::Ws, CK::BSkip, CK::Uni, CK::SimWs, CK::SimCb,
    CK::TCom, CK::BCom, CK::SimCom,
];

#[derive(Clone, Debug)]
enum Op {
    /// to a place, by setting (0), forwards and backwards (1), or all the way back first (2)
    Go(usize, u32),
    /// one of the patterns, with a callback that fails
    Run { pat: usize, how: u32, idx: Option<(u64, Fault, usize)> },
    /// a second one that goes on from here
    Clone,
    CloneAt(usize),
    /// another one, made anew
    Made { src: usize, at: usize, how: u64 },
    Look { at: usize, len: usize },
    /// a guard around matches; afterwards: nothing, reset, a result that is an error or not
    Guard { pats: Vec<usize>, inc: usize, end: u32, idx: Option<(u64, Fault, usize)> },
    Join(usize, usize, usize, usize),
}

/// P24: contexts.
pub fn p24(t: &mut Tape, rep: &mut Rep) -> Res {
    let ck = *t.pick(&CONTEXTS);
    let o = Opts { rx: 4, nodes: 5, depth: 3, mutex: false, without: if ck.text() { &["consume"] } else { &[] }, ..Opts::default() };
    let mut nodes = vec![];
    for i in 0..1 + t.draw(2) {
        let prof = o.profile(t, ck);
        let mut g = Gen::new(t, prof);
        g.start_at(1 + 1000 * i);
        nodes.push(g.root(true));
    }
    let srcs: Vec<String> = (0..2)
        .map(|_| {
            let i = t.draw(nodes.len() as u32) as usize;
            gen_src(t, &nodes[i], ck.skip(), 20).0
        })
        .collect();
    let any = |t: &mut Tape, n: usize| match t.draw(12) {
        8 | 9 => n + t.draw(4) as usize,
        10 => usize::MAX - t.draw(3) as usize,
        11 => usize::MAX / 2 + t.draw(3) as usize,
        _ => t.draw(n as u32 + 1) as usize,
    };
    let fault = |t: &mut Tape| match t.draw(8) {
        6 => Some((t.draw(20) as u64, Fault::Err, env::any_err(t, 1500))),
        7 => Some((t.draw(20) as u64, Fault::Panic, 0)),
        _ => None,
    };
    let longest = srcs.iter().map(|s| s.len()).max().unwrap();
    let mut ops: Vec<(usize, Op)> = vec![];
    for _ in 0..3 + t.draw(16) {
        let who = t.draw(4) as usize;
        let op = match t.draw(14) {
            0 | 1 => Op::Go(t.draw(longest as u32 + 1) as usize, t.draw(3)),
            2..=5 => {
                let pat = t.draw(nodes.len() as u32) as usize;
                Op::Run { pat, how: t.draw(6), idx: fault(t) }
            }
            6 => Op::Clone,
            7 => Op::CloneAt(any(t, longest)),
            8 => Op::Made { src: t.draw(2) as usize, at: t.draw(longest as u32 + 1) as usize, how: t.draw(1 << 16) as u64 },
            9 | 10 => Op::Look { at: any(t, longest), len: any(t, longest) },
            11 => {
                let v: Vec<usize> = (0..5).map(|_| t.draw(longest as u32 + 1) as usize).collect();
                Op::Join(v[0], v[1], v[2], v[3])
            }
            _ => {
                let pats = (0..t.draw(3)).map(|_| t.draw(nodes.len() as u32) as usize).collect();
                Op::Guard { pats, inc: t.draw(3) as usize, end: t.draw(4), idx: fault(t) }
            }
        };
        ops.push((who, op));
    }
    // only to see that the patterns come to an end
    for (n, src) in nodes.iter().flat_map(|n| srcs.iter().map(move |s| (n, s))) {
        for p in (0..=src.len()).filter(|p| !ck.text() || src.is_char_boundary(*p)) {
            let c = Scene { node: n.clone(), src: src.as_str().into(), ck, start: p, pf: vec![], mode: Mode::Mat, hm: 0, uw: false };
            if c.predict().over {
                rep.discard = true;
                return Ok(());
            }
        }
    }
    rep.case(hash_str(&format!("{ck:?}{nodes:?}{srcs:?}{ops:?}")));
    rep.hit(format!("context:{}", ck.name()));
    let head = || {
        let pats: Vec<String> = nodes.iter().map(|n| n.show()).collect();
        format!("contexts on {srcs:?} ({}), patterns {}", ck.name(), pats.join(" | "))
    };
    match dispatch(ck, &srcs[0], Contexts(&nodes, &srcs, &ops)) {
        Ok(d) => {
            rep.attempts += d.runs;
            rep.steps += d.calls + ops.len() as u64;
            for (k, v) in d.hits {
                *rep.hits.entry(k.into()).or_default() += v;
            }
            rep.say(|| format!("{}\n  {}", head(), d.log.join("\n  ")));
            Ok(())
        }
        Err(e) => Err(format!("{}\n  {e}", head())),
    }
}

#[derive(Default)]
struct Done {
    log: Vec<String>,
    runs: u64,
    calls: u64,
    hits: std::collections::BTreeMap<&'static str, u64>,
}

struct Contexts<'s>(&'s [Node], &'s [String], &'s [(usize, Op)]);

fn envs(idx: Option<(u64, Fault, usize)>) -> Env {
    let mut e = Env::new();
    e.mid_ok = true;
    e.idx = idx;
    e
}

impl Job for Contexts<'_> {
    type R = Result<Done, String>;
    fn go<'a, C: Mk<'a>>(self, _: &'a str, skip: Skip) -> Self::R {
        let Contexts(nodes, srcs, ops) = self;
        // one lifetime for all inputs
        let srcs: Vec<&'a str> = srcs.iter().map(|x| unsafe { &*(x.as_str() as *const str) }).collect();
        let built: Vec<_> = nodes.iter().map(build::<C>).collect();
        let mut d = Done::default();
        // each with its input and its position
        let mut all: Vec<(C, usize, usize)> = vec![(C::mk(srcs[0], skip), 0, 0), (C::mk(srcs[1], skip), 1, 0)];
        let bound = |i: usize, p: usize| {
            let mut p = p.min(srcs[i].len());
            while C::TEXT && !srcs[i].is_char_boundary(p) {
                p -= 1;
            }
            p
        };
        macro_rules! fail {
            ($($x:tt)*) => { return Err(format!("{}\n  {}", d.log.join("\n  "), format!($($x)*))) };
        }
        for (n, (who, op)) in ops.iter().enumerate() {
            let who = who % all.len();
            let (i, at) = (all[who].1, all[who].2);
            d.log.push(format!("op {n} on {who}, which is at {at} of input {i}: {op:?}"));
            let mut new = None;
            match op {
                Op::Go(p, how) => {
                    let (c, _, pos) = &mut all[who];
                    let p = bound(i, *p);
                    match how {
                        0 => {
                            c.set_offset(p);
                        }
                        1 if p >= at => {
                            c.inc(p - at);
                        }
                        1 => {
                            c.dec(at - p);
                        }
                        _ => {
                            c.dec(at).inc(p);
                        }
                    }
                    *pos = p;
                    *d.hits.entry("moved").or_default() += 1;
                }
                Op::Run { pat, how, idx } => {
                    let (c, _, pos) = &mut all[who];
                    let p = &built[*pat].p;
                    let run = |c: &mut C| {
                        env::swap(envs(*idx));
                        let r = guarded(|| match how {
                            0 | 1 => c.try_mat(p).map(|s| (s.beg, s.len)),
                            2 => Ok((c.is_mat(p) as usize, 0)),
                            3 => c.try_assert(p).map(|x| (x as usize, 1)),
                            4 => {
                                let f = |c: &mut C, r: Result<Span, Error>| {
                                    let r = r.ok().filter(|s| s.len > 0);
                                    if r.is_none() {
                                        c.set_offset(c.len());
                                    }
                                    r
                                };
                                Ok((c.find_all_with(Only(p.clone()), f, SimH).take(3).count(), 2))
                            }
                            _ => Ok((c.ctor_handler(p, SimH).is_ok() as usize, 3)),
                        });
                        let r = match r {
                            Ok(Ok(x)) => Ok(x),
                            Ok(Err(e)) => Err(format!("{e:?}")),
                            Err(p) => Err(format!("{p:?}")),
                        };
                        (r, c.offset(), env::swap(Env::new()).calls)
                    };
                    let mut fresh = C::mk(srcs[i], skip);
                    fresh.set_offset(at);
                    let want = run(&mut fresh);
                    let got = run(c);
                    d.log.push(format!("  {got:?}"));
                    d.runs += 2;
                    d.calls += got.2;
                    if got != want {
                        fail!("a fresh context at the same place gives {want:?}");
                    }
                    *pos = got.1;
                    if got.1 > srcs[i].len() || bound(i, got.1) != got.1 {
                        fail!("the position is outside of the input, or inside of a character");
                    }
                    *d.hits.entry(if got.0.is_ok() { "ran" } else { "ran, and failed" }).or_default() += 1;
                }
                Op::Clone => {
                    new = Some((all[who].0.clone(), i, at));
                    *d.hits.entry("cloned").or_default() += 1;
                }
                Op::CloneAt(p) => {
                    let good = *p <= srcs[i].len() && bound(i, *p) == *p;
                    env::swap(envs(None));
                    match guarded(|| all[who].0.clone_at(*p)) {
                        Ok(Ok(c)) if good => new = Some((c, i, *p)),
                        Ok(Err(_)) if !good => {}
                        Ok(r) => fail!("clone_at({p}) gives {}", if r.is_ok() { "a context" } else { "an error" }),
                        Err(e) => fail!("clone_at({p}) panics: {e:?}"),
                    }
                    *d.hits.entry(if good { "cloned elsewhere" } else { "refused to clone outside" }).or_default() += 1;
                }
                Op::Made { src, at, how } => {
                    let at = bound(*src, *at);
                    let mut c = C::other(srcs[*src], skip, at, *how);
                    if c.offset() != at {
                        c.set_offset(at);
                    }
                    new = Some((c, *src, at));
                }
                Op::Look { at, len } => {
                    env::swap(envs(None));
                    if let Err(e) = look(&all[who].0, srcs[i], *at, *len) {
                        fail!("{e}");
                    }
                    *d.hits.entry("looked").or_default() += 1;
                }
                Op::Guard { pats, inc, end, idx } => {
                    let src = srcs[i];
                    let (c, _, pos) = &mut all[who];
                    let run = |c: &mut C| -> Result<(bool, usize, String), String> {
                        let mut say = String::new();
                        let mut fail = false;
                        let mut g = CtxGuard::new(c);
                        if g.beg() != at || g.len() != src.len() || g.is_empty() != src.is_empty() {
                            return Err(format!("the guard begins at {} of {}", g.beg(), g.len()));
                        }
                        let to = bound(i, at + *inc);
                        if to > at {
                            let s = g.inc(to - at);
                            if (s.beg, s.len) != (at, to - at) {
                                return Err(format!("the guard moved over {s:?}"));
                            }
                        }
                        for p in pats {
                            let r = g.try_mat(&built[*p].p);
                            fail |= r.is_err();
                            say += &format!("{r:?} at {} ", g.end());
                        }
                        let here = g.end();
                        let want = if C::TEXT { src[here..].chars().count() } else { src.len() - here };
                        for (what, it) in [("peek", g.peek()), ("peek_at", g.peek_at(here))] {
                            match it.map(|x| x.count()) {
                                Ok(n) if n == want => {}
                                // the user's context underneath could not be read
                                Err(e) if idx.is_some_and(|x| env::err_of(x.2) == e) => {}
                                r => return Err(format!("the guard's {what} at {here} gives {r:?} items, {want} are left")),
                            }
                        }
                        match end {
                            1 => {
                                g.reset();
                                if g.end() != at {
                                    return Err(format!("the guard's reset moves to {}", g.end()));
                                }
                            }
                            2 => {
                                fail = true;
                                if g.process_ret(Err::<u8, _>(Error::Uid(3))) != Err(Error::Uid(3)) {
                                    return Err("the guard changes a result".into());
                                }
                            }
                            3 => {
                                if g.process_ret(Ok(5)) != Ok(5) {
                                    return Err("the guard changes a result".into());
                                }
                            }
                            _ => {}
                        }
                        Ok((fail, if *end == 1 { at } else { here }, say))
                    };
                    env::swap(envs(*idx));
                    let r = guarded(|| run(c));
                    d.calls += env::swap(Env::new()).calls;
                    d.log.push(format!("  {r:?}, then at {}", c.offset()));
                    let now = c.offset();
                    match r {
                        Ok(Ok((fail, here, _))) => {
                            let want = if fail { at } else { here };
                            if now != want {
                                fail!("the position should be {want}");
                            }
                            *d.hits.entry(if fail { "guarded, and taken back" } else { "guarded" }).or_default() += 1;
                        }
                        Ok(Err(e)) => fail!("{e}"),
                        Err(PK::Lib(e)) => fail!("the library panics: {e}"),
                        Err(_) => {
                            *d.hits.entry("guarded, and panicked").or_default() += 1;
                            if now > src.len() {
                                fail!("the position is outside of the input");
                            }
                            c.set_offset(at);
                        }
                    }
                    *pos = c.offset();
                }
                Op::Join(a, b, x, y) => {
                    let mut v = [*a, *b, *x, *y];
                    v.sort();
                    let (a, b, m, z) = (v[0], v[1 + *x % 2], v[2 - *x % 2], v[3]);
                    // [a, b) and [m, z), in touch or not
                    let mut s = Span::new(a, b - a);
                    s.add_assign(Span::new(m, z - m));
                    if s != Span::new(a, z - a) || s.beg() != a || s.len() != z - a || s.is_empty() != (z == a) {
                        fail!("{a}..{b} and {m}..{z} joined are {s:?}");
                    }
                }
            }
            if let Some(x) = new {
                if all.len() < 5 {
                    all.push(x);
                } else {
                    // over one that was in use
                    all[n % 5] = x;
                }
            }
            env::swap(envs(None));
            for (k, (c, i, at)) in all.iter().enumerate() {
                if c.offset() != *at {
                    fail!("context {k} is at {} of input {i}, it should be at {at}", c.offset());
                }
                if let Err(e) = look(c, srcs[*i], *at, srcs[*i].len() - *at) {
                    fail!("context {k}: {e}");
                }
            }
            env::swap(Env::new());
        }
        Ok(d)
    }
}

/// Everything that can be seen of a context, with pieces at `at`.
fn look<'a, C: Mk<'a>>(c: &C, src: &str, at: usize, len: usize) -> Result<(), String> {
    let here = c.offset();
    let raw = src.as_bytes();
    if c.len() != raw.len() || c.is_empty() != raw.is_empty() {
        return Err(format!("its length is {} of {}", c.len(), raw.len()));
    }
    let cut = |b: usize, l: usize| -> Option<&[u8]> {
        let e = b.checked_add(l)?;
        if C::TEXT { src.get(b..e).map(|x| x.as_bytes()) } else { raw.get(b..e) }
    };
    let rest = |b: usize| cut(b, raw.len().checked_sub(b)?);
    let text = |what: &str, want: Option<&[u8]>, f: &dyn Fn() -> Result<C::Orig<'a>, Error>| -> Result<(), String> {
        let got = guarded(f).map_err(|p| format!("{what} panics: {p:?}"))?;
        if got.as_ref().ok().map(|x| x.as_ref()) != want {
            return Err(format!("{what} is {:?}, it should be {want:?}", got.as_ref().map(|x| x.as_ref())));
        }
        Ok(())
    };
    text("orig()", rest(here), &|| c.orig())?;
    text(&format!("orig_at({at})"), rest(at), &|| c.orig_at(at))?;
    text(&format!("orig_sub({at}, {len})"), cut(at, len), &|| c.orig_sub(at, len))?;
    text(&format!("the text of the span {at} + {len}"), cut(at, len), &|| Span::new(at, len).orig(c))?;
    let items = |b: usize| -> Option<Vec<(usize, u32)>> {
        rest(b)?;
        Some(if C::TEXT {
            src[b..].char_indices().map(|(i, c)| (i, c as u32)).collect()
        } else {
            raw[b..].iter().enumerate().map(|(i, c)| (i, *c as u32)).collect()
        })
    };
    for (what, want, k) in [("peek()", items(here), 0), ("peek_at()", items(at), 1)] {
        let got = guarded(|| if k == 0 { c.peek() } else { c.peek_at(at) }).map_err(|p| format!("{what} at {at} panics: {p:?}"))?;
        let (Ok(mut it), Some(want)) = (got, &want) else {
            if want.is_some() {
                return Err(format!("{what} for {at} fails"));
            }
            continue;
        };
        let mut left = want.len();
        for x in want {
            let (lo, hi) = it.size_hint();
            if lo > left || hi.is_some_and(|h| h < left) {
                return Err(format!("{what} for {at} promises {lo} to {hi:?} items, {left} are left"));
            }
            let y = it.next().map(|(i, c)| (i, c.code()));
            if y != Some(*x) {
                return Err(format!("{what} for {at} shows {y:?}, it should show {x:?}"));
            }
            left -= 1;
        }
        if it.size_hint().0 > 0 || it.next().is_some() {
            return Err(format!("{what} for {at} shows more than there is"));
        }
    }
    if here != c.offset() {
        return Err(format!("looking moved it from {here} to {}", c.offset()));
    }
    Ok(())
}
