//! Histories on one context: captures (P10) and searches (P11).

use crate::ast::*;
use crate::build::{P, build};
use crate::ctxs::SimH;
use crate::env::{self, Bad, Env, Fault};
use crate::forms::Only;
use crate::model::Skip;
use crate::run::*;
use crate::tape::{Tape, mix};
use crate::value::V;
use neure::ctx::MatchMulti;
use neure::err::Error;
use neure::iter::IndexBySpan;

use neure::regex::Regex;
use neure::span::{ArrayStorer, Span, VecStorer};
use std::cell::Cell;

// ---- P10

/// What is in a store: for each group its slots.
type Groups = Vec<Vec<Option<Span>>>;

pub trait Store: Clone {
    const SLOTS: usize;
    fn make(groups: usize, how: u32) -> Self;
    fn groups(&self) -> usize;
    fn none(&self) -> bool;
    fn cap<'a, C: Mk<'a>>(&mut self, id: usize, slot: usize, ctx: &mut C, p: &Only<'a, C>) -> Result<Span, Error>;
    fn put(&mut self, id: usize, slot: usize, s: Span);
    fn clear(&mut self, id: usize);
    fn clear_all(&mut self);
    fn has(&self, id: usize) -> bool;
    fn one(&self, id: usize, i: usize) -> Option<Span>;
    fn all(&self, id: usize) -> Option<Vec<Option<Span>>>;
    fn iter(&self, id: usize) -> Option<impl Iterator<Item = Span> + Clone + '_>;
    fn text<'v, T: IndexBySpan + ?Sized>(&self, v: &'v T, id: usize, i: usize) -> Option<&'v T::Output>;
    fn texts<'v, 's, T: IndexBySpan + ?Sized>(
        &'s self,
        v: &'v T,
        id: usize,
    ) -> Option<impl ExactSizeIterator<Item = &'v T::Output> + Clone + use<'v, 's, T, Self>>
    where
        T::Output: 'v;
}

impl Store for VecStorer {
    const SLOTS: usize = 0;
    fn make(groups: usize, how: u32) -> Self {
        match how {
            0 => VecStorer::new(groups),
            1 => VecStorer::new_with(vec![vec![]; groups]),
            _ => {
                let mut v = VecStorer::new(2);
                v.add_span(1, Span::new(0, 0));
                v.with_capacity(groups)
            }
        }
    }
    fn groups(&self) -> usize {
        self.len()
    }
    fn none(&self) -> bool {
        self.is_empty()
    }
    fn cap<'a, C: Mk<'a>>(&mut self, id: usize, _: usize, ctx: &mut C, p: &Only<'a, C>) -> Result<Span, Error> {
        self.try_cap(id, ctx, p)
    }
    fn put(&mut self, id: usize, _: usize, s: Span) {
        self.add_span(id, s);
    }
    fn clear(&mut self, id: usize) {
        self.clr_span(id);
    }
    fn clear_all(&mut self) {
        self.reset();
    }
    fn has(&self, id: usize) -> bool {
        self.contain(id)
    }
    fn one(&self, id: usize, i: usize) -> Option<Span> {
        self.span(id, i).copied()
    }
    fn all(&self, id: usize) -> Option<Vec<Option<Span>>> {
        self.spans(id).map(|v| v.iter().map(|s| Some(*s)).collect())
    }
    fn iter(&self, id: usize) -> Option<impl Iterator<Item = Span> + Clone + '_> {
        self.spans_iter(id)
    }
    fn text<'v, T: IndexBySpan + ?Sized>(&self, v: &'v T, id: usize, i: usize) -> Option<&'v T::Output> {
        self.slice(v, id, i)
    }
    fn texts<'v, 's, T: IndexBySpan + ?Sized>(
        &'s self,
        v: &'v T,
        id: usize,
    ) -> Option<impl ExactSizeIterator<Item = &'v T::Output> + Clone + use<'v, 's, T>>
    where
        T::Output: 'v,
    {
        self.slice_iter(v, id)
    }
}

impl<const G: usize, const L: usize> Store for ArrayStorer<G, L> {
    const SLOTS: usize = L;
    fn make(_: usize, how: u32) -> Self {
        match how {
            0 => ArrayStorer::new(),
            1 => ArrayStorer::new_with([[None; L]; G]),
            _ => ArrayStorer::default(),
        }
    }
    fn groups(&self) -> usize {
        self.len()
    }
    fn none(&self) -> bool {
        self.is_empty()
    }
    fn cap<'a, C: Mk<'a>>(&mut self, id: usize, slot: usize, ctx: &mut C, p: &Only<'a, C>) -> Result<Span, Error> {
        self.try_cap(id, slot, ctx, p)
    }
    fn put(&mut self, id: usize, slot: usize, s: Span) {
        self.set_span(id, slot, s);
    }
    fn clear(&mut self, id: usize) {
        self.clr_span(id);
    }
    fn clear_all(&mut self) {
        self.reset();
    }
    fn has(&self, id: usize) -> bool {
        self.contain(id)
    }
    fn one(&self, id: usize, i: usize) -> Option<Span> {
        self.span(id, i).copied()
    }
    fn all(&self, id: usize) -> Option<Vec<Option<Span>>> {
        // a group without spans may be shown either way
        self.spans(id).map(|v| v.to_vec()).filter(|v| v.iter().any(|s| s.is_some()))
    }
    fn iter(&self, id: usize) -> Option<impl Iterator<Item = Span> + Clone + '_> {
        self.spans_iter(id).filter(|_| self.contain(id))
    }
    fn text<'v, T: IndexBySpan + ?Sized>(&self, v: &'v T, id: usize, i: usize) -> Option<&'v T::Output> {
        self.slice(v, id, i)
    }
    fn texts<'v, 's, T: IndexBySpan + ?Sized>(
        &'s self,
        v: &'v T,
        id: usize,
    ) -> Option<impl ExactSizeIterator<Item = &'v T::Output> + Clone + use<'v, 's, T, G, L>>
    where
        T::Output: 'v,
    {
        self.slice_iter(v, id).filter(|_| self.contain(id)).map(|it| Redo { store: self, v, id, taken: 0, it })
    }
}

/// Clones the iterator of an array store by making another one and bringing it to the
/// same place (its own `Clone` asks for more than the types used here offer).
struct Redo<'v, 's, T: ?Sized, const G: usize, const L: usize> {
    store: &'s ArrayStorer<G, L>,
    v: &'v T,
    id: usize,
    taken: usize,
    it: neure::iter::IteratorByOptionSpan<'v, 's, T>,
}

impl<T: IndexBySpan + ?Sized, const G: usize, const L: usize> Clone for Redo<'_, '_, T, G, L> {
    fn clone(&self) -> Self {
        let mut it = self.store.slice_iter(self.v, self.id).expect("group");
        for _ in 0..self.taken {
            it.next();
        }
        Redo { store: self.store, v: self.v, id: self.id, taken: self.taken, it }
    }
}

impl<'v, T: IndexBySpan + ?Sized, const G: usize, const L: usize> Iterator for Redo<'v, '_, T, G, L> {
    type Item = &'v T::Output;
    fn next(&mut self) -> Option<Self::Item> {
        self.taken += 1;
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}

impl<T: IndexBySpan + ?Sized, const G: usize, const L: usize> ExactSizeIterator for Redo<'_, '_, T, G, L> {}

#[derive(Clone, Debug)]
enum Op {
    Cap { id: usize, slot: usize, pat: usize, at: Option<usize>, idx: Option<(u64, Fault, usize)> },
    Clear(usize),
    ClearAll,
    Copy,
    Put { id: usize, slot: usize, b: usize, l: usize },
    Read { id: usize, k: usize, ty: u32 },
}

pub fn p10(t: &mut Tape, rep: &mut Rep) -> Res {
    let ck = *t.pick(&CK_ALL);
    let o = Opts { rx: 4, nodes: 6, depth: 3, mutex: false, without: if ck.text() { &["consume"] } else { &[] }, ..Opts::default() };
    let mut nodes = vec![];
    for i in 0..1 + t.draw(3) {
        let prof = o.profile(t, ck);
        let mut g = Gen::new(t, prof);
        g.start_at(1 + 1000 * i);
        nodes.push(g.root(true));
    }
    let ws = if ck.skip() != Skip::No { 2 } else { 0 };
    let mut src = String::new();
    for _ in 0..1 + t.draw(5) {
        let i = t.draw(nodes.len() as u32) as usize;
        src.push_str(&sample_text(t, &nodes[i], ws, 12));
        if t.draw(3) == 2 {
            src.push(*t.pick(&ALPHA));
        }
    }
    let kind = t.draw(7);
    let (groups, slots) = match kind {
        0 | 1 => (1 + t.draw(4) as usize, 0),
        2 => (3, 4),
        3 => (2, 2),
        4 => (5, 2),
        5 => (4, 1),
        _ => (1, 3),
    };
    let how = t.draw(3);
    let bound = |src: &str, mut p: usize| {
        while ck.text() && !src.is_char_boundary(p) {
            p -= 1;
        }
        p
    };
    let mut ops = vec![];
    let many = t.draw(300) == 299;
    for _ in 0..4 + t.draw(if many { 600 } else { 24 }) {
        let id = t.draw(groups as u32) as usize;
        let slot = t.draw(slots.max(1) as u32) as usize;
        ops.push(match t.draw(16) {
            0..=7 => {
                let pat = t.draw(nodes.len() as u32) as usize;
                let at = if t.draw(3) == 2 { Some(bound(&src, t.draw(src.len() as u32 + 1) as usize)) } else { None };
                let idx = match t.draw(8) {
                    5 => Some((t.draw(20) as u64, Fault::Err, env::any_err(t, 1500))),
                    6 => Some((t.draw(20) as u64, Fault::Flip, 0)),
                    7 => Some((t.draw(20) as u64, Fault::Panic, 0)),
                    _ => None,
                };
                Op::Cap { id, slot, pat, at, idx }
            }
            8 => Op::Clear(t.draw(groups as u32 + 2) as usize),
            9 => {
                if t.draw(3) == 0 { Op::ClearAll } else { Op::Clear(id) }
            }
            10 => Op::Copy,
            11 => {
                let b = bound(&src, t.draw(src.len() as u32 + 1) as usize);
                let e = bound(&src, b + t.draw((src.len() - b) as u32 + 1) as usize);
                Op::Put { id, slot, b, l: e.max(b) - b }
            }
            _ => Op::Read { id: t.draw(groups as u32 + 1) as usize, k: t.draw(6) as usize, ty: t.draw(8) },
        });
    }
    let s = Scene { node: nodes[0].clone(), src: src.into(), ck, start: 0, pf: vec![], mode: Mode::Mat, hm: 0, uw: false };
    // only to see that the patterns come to an end
    for n in &nodes {
        for p in 0..=s.src.len() {
            if ck.text() && !s.src.is_char_boundary(p) {
                continue;
            }
            let mut c = s.clone();
            c.node = n.clone();
            c.start = p;
            if c.predict().over {
                rep.discard = true;
                return Ok(());
            }
        }
    }
    rep.case(s.hash() ^ crate::tape::hash_str(&format!("{kind}{how}{ops:?}")));
    struct Cap<'s>(&'s Scene, &'s [Node], &'s [Op], u32, usize, u32);
    impl Job for Cap<'_> {
        type R = Result<Done, String>;
        fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Self::R {
            match self.3 {
                0 | 1 => captures::<C, VecStorer>(self.0, self.1, self.2, self.4, self.5, src, skip),
                2 => captures::<C, ArrayStorer<3, 4>>(self.0, self.1, self.2, self.4, self.5, src, skip),
                3 => captures::<C, ArrayStorer<2, 2>>(self.0, self.1, self.2, self.4, self.5, src, skip),
                4 => captures::<C, ArrayStorer<5, 2>>(self.0, self.1, self.2, self.4, self.5, src, skip),
                5 => captures::<C, ArrayStorer<4, 1>>(self.0, self.1, self.2, self.4, self.5, src, skip),
                _ => captures::<C, ArrayStorer<1, 3>>(self.0, self.1, self.2, self.4, self.5, src, skip),
            }
        }
    }
    let kinds = ["VecStorer", "VecStorer", "ArrayStorer<3, 4>", "ArrayStorer<2, 2>", "ArrayStorer<5, 2>", "ArrayStorer<4, 1>", "ArrayStorer<1, 3>"];
    let head = || {
        let pats: Vec<String> = nodes.iter().map(|n| n.show()).collect();
        format!("{} with {groups} groups on {:?} ({}), patterns {}", kinds[kind as usize], s.src, ck.name(), pats.join(" | "))
    };
    rep.hit(format!("store:{}", kinds[kind as usize]));
    rep.hit(format!("context:{}", ck.name()));
    match dispatch(ck, &s.src, Cap(&s, &nodes, &ops, kind, groups, how)) {
        Ok(d) => {
            rep.attempts += d.caps;
            rep.steps += d.calls + ops.len() as u64;
            for (k, v) in d.ends {
                *rep.hits.entry(k.into()).or_default() += v;
            }
            rep.say(|| format!("{}\n  {}", head(), d.log.join("\n  ")));
            Ok(())
        }
        Err(e) => Err(format!("{}\n  {e}", head())),
    }
}

struct Done {
    log: Vec<String>,
    caps: u64,
    calls: u64,
    ends: std::collections::BTreeMap<&'static str, u64>,
}

fn captures<'a, C: Mk<'a>, St: Store>(
    s: &Scene, nodes: &[Node], ops: &[Op], groups: usize, how: u32, src: &'a str, skip: Skip,
) -> Result<Done, String> {
    let built: Vec<_> = nodes.iter().map(build::<C>).collect();
    let pats: Vec<Only<'a, C>> = built.iter().map(|b| Only(b.p.clone())).collect();
    let mut st = St::make(groups, how);
    let mut ctx = C::mk(src, skip);
    let mut want: Groups = vec![vec![None; St::SLOTS]; groups];
    let mut d = Done { log: vec![], caps: 0, calls: 0, ends: Default::default() };
    macro_rules! fail {
        ($($x:tt)*) => { return Err(format!("{}\n  {}", d.log.join("\n  "), format!($($x)*))) };
    }
    for (i, op) in ops.iter().enumerate() {
        d.log.push(format!("op {i}: {op:?}"));
        match op {
            Op::Cap { id, slot, pat, at, idx } => {
                d.caps += 1;
                let at = at.unwrap_or(ctx.offset());
                let env = || {
                    let mut e = s.env();
                    e.mid_ok = true;
                    e.idx = *idx;
                    e
                };
                let mut twin = C::at(src, skip, at);
                let o = run_one(&built[*pat].p, &mut twin, Mode::Mat, env());
                ctx.set_offset(at);
                env::swap(env());
                let r = guarded(|| st.cap(*id, *slot, &mut ctx, &pats[*pat]));
                d.calls += env::swap(Env::new()).calls;
                d.log.push(format!("  at {at}: {r:?}, position {}", ctx.offset()));
                let end = match (&r, &o.ret) {
                    (Ok(Ok(s)), Ret::Span(b, l)) if (s.beg, s.len) == (*b, *l) && ctx.offset() == o.pos => {
                        if St::SLOTS == 0 {
                            want[*id].push(Some(*s));
                        } else {
                            want[*id][*slot] = Some(*s);
                        }
                        "captured"
                    }
                    (Ok(Err(e)), Ret::Err(x)) if e == x && ctx.offset() == o.pos => "capture failed",
                    (Err(p), Ret::Panic(q)) if p == q => "capture panicked",
                    _ => fail!("the match itself gives {}", o.show()),
                };
                *d.ends.entry(end).or_default() += 1;
                if end == "capture panicked" {
                    ctx.set_offset(at);
                }
            }
            Op::Clear(id) => {
                st.clear(*id);
                if *id < groups {
                    want[*id] = vec![None; St::SLOTS];
                }
            }
            Op::ClearAll => {
                st.clear_all();
                want = vec![vec![None; St::SLOTS]; groups];
            }
            Op::Copy => {
                let mut old = std::mem::replace(&mut st, St::make(groups, 0));
                st = old.clone();
                // the copy has nothing to do with the original
                old.clear_all();
            }
            Op::Put { id, slot, b, l } => {
                let s = Span::new(*b, *l);
                st.put(*id, *slot, s);
                if St::SLOTS == 0 {
                    want[*id].push(Some(s));
                } else {
                    want[*id][*slot] = Some(s);
                }
            }
            Op::Read { id, k, ty } => {
                let none = vec![];
                let w = want.get(*id).unwrap_or(&none);
                let r = match (C::TEXT, ty) {
                    (true, 0) => read::<St, str>(&st, src, src, *id, *k, w, |x| x.as_bytes()),
                    (true, 1) => read::<St, &str>(&st, &src, src, *id, *k, w, |x| x.as_bytes()),
                    (_, 2) => read::<St, [u8]>(&st, src.as_bytes(), src, *id, *k, w, |x| x),
                    (_, 3) => read::<St, Vec<u8>>(&st, &src.as_bytes().to_vec(), src, *id, *k, w, |x| x),
                    (_, 4) => read::<St, &Vec<u8>>(&st, &&src.as_bytes().to_vec(), src, *id, *k, w, |x| x),
                    (_, 5) => read::<St, &[u8]>(&st, &src.as_bytes(), src, *id, *k, w, |x| x),
                    _ => match ctx.read_store(&st, src, *id, *k, w) {
                        Some(r) => r,
                        None => read::<St, &[u8]>(&st, &src.as_bytes(), src, *id, *k, w, |x| x),
                    },
                };
                *d.ends.entry("read back").or_default() += 1;
                if let Err(m) = r {
                    fail!("{m}")
                }
            }
        }
        // nothing else in the store has changed
        if st.groups() != groups || st.none() != (groups == 0) {
            fail!("the store has {} groups", st.groups());
        }
        for id in 0..groups + 1 {
            let none = vec![];
            let w = want.get(id).unwrap_or(&none);
            let full: Vec<Span> = w.iter().flatten().copied().collect();
            if st.has(id) == full.is_empty() {
                fail!("group {id} says it {} spans, it should have {full:?}", if st.has(id) { "has" } else { "has no" });
            }
            for j in 0..w.len() + 2 {
                if st.one(id, j) != w.get(j).copied().flatten() {
                    fail!("group {id} has {:?} at {j}, it should have {:?}", st.one(id, j), w.get(j));
                }
            }
            if st.all(id) != if full.is_empty() { None } else { Some(w.clone()) } {
                fail!("the spans of group {id} are {:?}, they should be {w:?}", st.all(id));
            }
        }
    }
    Ok(d)
}

pub fn read<St: Store, T: IndexBySpan + ?Sized>(
    st: &St, v: &T, src: &str, id: usize, k: usize, w: &[Option<Span>], f: fn(&T::Output) -> &[u8],
) -> Result<(), String> {
    let full: Vec<Span> = w.iter().flatten().copied().collect();
    let want: Vec<&[u8]> = full.iter().map(|s| v.get_by_span(s).map(f).unwrap_or(b"?")).collect();
    for (i, (s, x)) in full.iter().zip(&want).enumerate() {
        let raw = src.as_bytes().get(s.beg..s.beg + s.len);
        if raw != Some(x) {
            return Err(format!("span {i} of group {id} reads {x:?} for {s:?}, which is {raw:?}"));
        }
    }
    // one at a time
    for i in 0..w.len() + 1 {
        let x = st.text(v, id, i).map(f);
        let y = w.get(i).copied().flatten().map(|s| v.get_by_span(&s).map(f).unwrap_or(b"?"));
        if x != y {
            return Err(format!("slot {i} of group {id} reads {x:?}, it should be {y:?}"));
        }
    }
    // the spans
    let mut it = st.iter(id);
    if it.is_some() == full.is_empty() {
        return Err(format!("the spans of group {id} can be iterated: {}, they are {full:?}", it.is_some()));
    }
    if let Some(it) = it.as_mut() {
        let mut got = vec![];
        for i in 0..full.len() + 2 {
            let (lo, hi) = it.size_hint();
            let rest = full.len() - got.len();
            if lo > rest || hi.is_some_and(|h| h < rest) {
                return Err(format!("after {i} spans of group {id} {rest} are left, but it says ({lo}, {hi:?})"));
            }
            if i == k {
                let rest: Vec<Span> = it.clone().collect();
                if rest != full[got.len()..] {
                    return Err(format!("after {i} spans of group {id} the rest is {rest:?} of {full:?}"));
                }
            }
            match it.next() {
                Some(s) => got.push(s),
                None => {
                    if got.len() != full.len() {
                        break;
                    }
                }
            }
            if got.len() > full.len() {
                break;
            }
        }
        if got != full {
            return Err(format!("the spans of group {id} iterate as {got:?}, they should be {full:?}"));
        }
    }
    // the texts
    let mut it = st.texts(v, id);
    if it.is_some() == full.is_empty() {
        return Err(format!("the texts of group {id} can be iterated: {}, its spans are {full:?}", it.is_some()));
    }
    if let Some(it) = it.as_mut() {
        let mut got: Vec<&[u8]> = vec![];
        for i in 0..full.len() + 2 {
            let rest = full.len() - got.len();
            let hint = it.size_hint();
            if hint != (rest, Some(rest)) {
                return Err(format!("after {i} texts of group {id} {rest} are left, but it says {hint:?}"));
            }
            if it.len() != rest {
                return Err(format!("after {i} texts of group {id} {rest} are left, but len() is {}", it.len()));
            }
            if i == k {
                let rest: Vec<&[u8]> = it.clone().map(f).collect();
                if rest != want[got.len()..] {
                    return Err(format!("after {i} texts of group {id} the rest is {rest:?} of {want:?}"));
                }
            }
            match it.next() {
                Some(s) => got.push(f(s)),
                None => {
                    if got.len() != full.len() {
                        break;
                    }
                }
            }
            if got.len() > full.len() {
                break;
            }
        }
        if got != want {
            return Err(format!("the texts of group {id} iterate as {got:?}, they should be {want:?}"));
        }
    }
    Ok(())
}

// ---- P11

#[derive(Clone, Debug)]
enum Search {
    Find,
    FindAll(usize),
    Seq(usize),
    /// with a handler of the caller's and a processor that turns some matches down
    With(u64),
    AllWith(usize, u64),
}

struct Count<'a, 'n, C> {
    p: P<'a, C>,
    n: &'n Cell<u64>,
    cap: u64,
}

impl<C> Regex<C> for Count<'_, '_, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.n.set(self.n.get() + 1);
        if self.n.get() > self.cap {
            env::panic_now(env::Budget);
        }
        // an attempt may call as much as any attempt, and so may the next
        env::allow(200_000);
        self.p.try_parse(ctx)
    }
}

/// Does the processor of the simulated caller take this match?
fn takes(salt: u64, s: &Span) -> bool {
    salt == 0 || mix(salt ^ (s.beg as u64) << 20 ^ s.len as u64) % 3 != 0
}

pub fn p11(t: &mut Tape, rep: &mut Rep) -> Res {
    let ck = *t.pick(&CK_ALL);
    let o = Opts {
        rx: 4, nodes: 8, depth: 4, dirty: true, without: if ck.text() { &["consume", "around"] } else { &["around"] },
        ..Opts::default()
    };
    let mut nodes = vec![];
    for i in 0..1 + t.draw(2) {
        let prof = o.profile(t, ck);
        let mut g = Gen::new(t, prof);
        g.start_at(1 + 1000 * i);
        nodes.push(g.root(true));
    }
    let ws = if ck.skip() != Skip::No { 2 } else { 0 };
    let mut src = String::new();
    let pieces = if t.draw(300) == 299 { 100 + t.draw(100) } else { 1 + t.draw(6) };
    for _ in 0..pieces {
        let i = t.draw(nodes.len() as u32) as usize;
        src.push_str(&sample_text(t, &nodes[i], ws, 10));
        for _ in 0..t.draw(3) {
            src.push(*t.pick(&ALPHA));
        }
    }
    let mut start = if t.draw(4) == 3 { t.draw(src.len() as u32 + 1) as usize } else { 0 };
    while ck.text() && !src.is_char_boundary(start) {
        start -= 1;
    }
    let mut ops: Vec<(usize, Search)> = vec![];
    for _ in 0..1 + t.draw(6) {
        let n = t.draw(nodes.len() as u32) as usize;
        let k = [1, 2, 3, 100_000, 0][t.draw(5) as usize];
        let salt = t.draw(3) as u64;
        ops.push((n, match t.draw(6) {
            0 | 1 => Search::Find,
            2 => Search::FindAll(k),
            3 => Search::Seq(k),
            4 => Search::With(salt),
            _ => Search::AllWith(k, salt),
        }));
    }
    // to the end
    ops.push((0, Search::FindAll(100_000)));
    let mut s = Scene { node: nodes[0].clone(), src: src.into(), ck, start, pf: vec![], mode: Mode::Mat, hm: 0, uw: false };
    for _ in 0..t.draw(3) {
        // faults where some attempt really comes along
        let mut c = s.clone();
        c.node = nodes[t.draw(nodes.len() as u32) as usize].clone();
        c.start = t.draw(s.src.len() as u32 + 1) as usize;
        while ck.text() && !s.src.is_char_boundary(c.start) {
            c.start -= 1;
        }
        c.mode = if rx_able(&c.node) && t.draw(4) == 0 { Mode::Con } else { Mode::Mat };
        if add_faults(t, &mut c, 1, &no_panics).is_none() {
            rep.discard = true;
            return Ok(());
        }
        s.pf = c.pf;
        // where a character cannot even be looked at, its length is anyone's guess
        let src = &s.src;
        s.pf.retain(|f| {
            f.k != env::K::Read || f.site != 0 || src.get(f.key as usize..).and_then(|x| x.chars().next()).is_none_or(|c| c.is_ascii())
        });
    }
    if t.draw(3) == 2 {
        // the handler of a span that is found
        let b = t.draw(s.src.len() as u32 + 1) as usize;
        let uid = env::any_err(t, 1100);
        for l in 1..4u64 {
            s.pf.push(env::PF { k: env::K::Handler, site: 0, key: (b as u64) << 20 | l, f: Fault::Err, uid, once: false });
        }
    }
    for n in &nodes {
        for p in 0..=s.src.len() {
            if ck.text() && !s.src.is_char_boundary(p) {
                continue;
            }
            let mut c = s.clone();
            c.node = n.clone();
            c.start = p;
            if c.predict().over {
                rep.discard = true;
                return Ok(());
            }
        }
    }
    rep.case(s.hash() ^ crate::tape::hash_str(&format!("{ops:?}")));
    struct Hunt<'s>(&'s Scene, &'s [Node], &'s [(usize, Search)]);
    impl Job for Hunt<'_> {
        type R = Result<(Vec<String>, u64, u64), String>;
        fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Self::R {
            searches::<C>(self.0, self.1, self.2, src, skip)
        }
    }
    let head = || {
        let pats: Vec<String> = nodes.iter().map(|n| n.show()).collect();
        let f: Vec<String> = s.pf.iter().map(show_fault).collect();
        format!("on {:?} ({}) from {start}, patterns {}; {}", s.src, ck.name(), pats.join(" | "), f.join("; "))
    };
    rep.hit(format!("context:{}", ck.name()));
    if pieces >= 100 {
        rep.hit("many things to find");
    }
    for o in &ops {
        rep.hit(match o.1 {
            Search::Find => "search:find",
            Search::FindAll(_) => "search:find_all",
            Search::Seq(_) => "search:match_seq",
            Search::With(_) => "search:find_with",
            Search::AllWith(..) => "search:find_all_with",
        });
    }
    match dispatch(ck, &s.src, Hunt(&s, &nodes, &ops)) {
        Ok((log, found, calls)) => {
            rep.attempts += calls;
            rep.steps += calls;
            *rep.hits.entry("results found".into()).or_default() += found;
            rep.say(|| format!("{}\n  {}", head(), log.join("\n  ")));
            Ok(())
        }
        Err(e) => Err(format!("{}\n  {e}", head())),
    }
}

fn searches<'a, C: Mk<'a>>(
    s: &Scene, nodes: &[Node], ops: &[(usize, Search)], src: &'a str, skip: Skip,
) -> Result<(Vec<String>, u64, u64), String> {
    let len = src.len();
    let built: Vec<_> = nodes.iter().map(build::<C>).collect();
    let mut ctx = C::at(src, skip, s.start);
    let (mut log, mut found, mut calls) = (vec![], 0, 0);
    let env = || {
        let mut e = s.env();
        e.mid_ok = true;
        e
    };
    // the same attempt, alone
    let attempt = |i: usize, p: usize| -> (Option<Span>, usize) {
        let mut c = C::at(src, skip, p);
        let o = run_one(&built[i].p, &mut c, Mode::Mat, env());
        match o.ret {
            Ret::Span(b, l) => (Some(Span::new(b, l)), o.pos),
            _ => (None, p),
        }
    };
    let handled = |span: &Span| -> Option<V> {
        let c = C::mk(src, skip);
        env::swap(env());
        let r = guarded(|| neure::ctor::Handler::<C>::invoke(&mut SimH, &c, span));
        env::swap(Env::new());
        r.ok()?.ok()
    };
    let step = |p: usize| {
        let mut p = p + 1;
        while C::TEXT && p < len && !src.is_char_boundary(p) {
            p += 1;
        }
        p
    };
    for (n, op) in ops {
        let from = ctx.offset();
        let (k, salt, with, seq) = match op {
            Search::Find => (1, 0, false, false),
            Search::FindAll(k) => (*k, 0, false, false),
            Search::Seq(k) => (*k, 0, false, true),
            Search::With(x) => (1, *x, true, false),
            Search::AllWith(k, x) => (*k, *x, true, false),
        };
        // what there is to find
        let mut want: Vec<(Span, Option<V>)> = vec![];
        let mut p = from;
        while want.len() < k && p < len {
            let (m, end) = attempt(*n, p);
            match m {
                Some(span) if !span.is_empty() => {
                    p = end;
                    if !takes(salt, &span) {
                        continue;
                    }
                    if with {
                        if let Some(v) = handled(&span) {
                            want.push((span, Some(v)));
                        }
                    } else {
                        want.push((span, None));
                    }
                }
                _ if seq => p = len,
                _ => {
                    p = end;
                    if p < len {
                        p = step(p)
                    }
                }
            }
        }
        // what is found
        let count = Cell::new(0);
        let pat = Count { p: built[*n].p.clone(), n: &count, cap: 3 * len as u64 + 20 };
        env::swap(env());
        let func = |ctx: &mut C, r: Result<Span, Error>| match r {
            Ok(s) if !s.is_empty() => takes(salt, &s).then_some(s),
            _ => {
                if ctx.offset() < ctx.len() {
                    ctx.set_offset(step(ctx.offset()));
                }
                None
            }
        };
        let some = |s: Span| (s, None);
        let hand = |v: V| match v {
            V::Tok { b, l, .. } => (Span::new(b as usize, l as usize), Some(v)),
            v => (Span::new(usize::MAX, 0), Some(v)),
        };
        // one more than there should be
        let more = |k: usize| if k == 100_000 { usize::MAX } else { k };
        let r: Result<(Vec<(Span, Option<V>)>, bool), PK> = guarded(|| {
            fn take<T>(mut it: impl Iterator<Item = T>, k: usize) -> (Vec<T>, bool) {
                let mut v = vec![];
                while v.len() < k {
                    match it.next() {
                        Some(x) => v.push(x),
                        // an end is final
                        None => return (v, it.next().is_some() || it.next().is_some()),
                    }
                }
                (v, false)
            }
            match op {
                Search::Find => (ctx.find::<Span>(pat).map(some).into_iter().collect(), false),
                Search::FindAll(_) => take(ctx.find_all::<Span>(pat).map(some), more(k)),
                Search::Seq(_) => take(ctx.match_seq::<Span>(pat).map(some), more(k)),
                Search::With(_) => (ctx.find_with(pat, func, SimH).map(hand).into_iter().collect(), false),
                Search::AllWith(..) => take(ctx.find_all_with(pat, func, SimH).map(hand), more(k)),
            }
        });
        let e = env::swap(Env::new());
        calls += count.get();
        let pos = ctx.offset();
        let short = |v: &[(Span, Option<V>)]| {
            v.iter().map(|x| format!("{}..{}", x.0.beg, x.0.beg.wrapping_add(x.0.len))).collect::<Vec<_>>().join(" ")
        };
        log.push(format!(
            "{op:?} of pattern {n} from {from}: {}, position {pos}, {} attempts",
            match &r {
                Ok((v, _)) => format!("[{}]", short(v)),
                Err(e) => format!("{e:?}"),
            },
            count.get()
        ));
        let fail = |m: String| Err(format!("{}\n  {m}", log.join("\n  ")));
        let (got, again) = match r {
            Ok(x) => x,
            Err(PK::Budget) => return fail("the search does not end".into()),
            Err(e) => return fail(format!("the search panicked: {e:?}")),
        };
        if let Some((Bad::Span, m)) = &e.bad {
            return fail(m.clone());
        }
        found += got.len() as u64;
        let same = got.len() == want.len()
            && got.iter().zip(&want).all(|(a, b)| {
                a.0 == b.0
                    && match (&a.1, &b.1) {
                        (Some(a), Some(b)) => a.same(b),
                        (None, None) => true,
                        _ => false,
                    }
            });
        if !same {
            return fail(format!("there is [{}] to find, according to the pattern alone", short(&want)));
        }
        if again {
            return fail("it found more after it had come to its end".into());
        }
        if pos != p {
            return fail(format!("the position should be {p}"));
        }
        // a search that is cut off may only make the attempts it needs
        if count.get() > (len - from) as u64 + 1 {
            return fail(format!("{} attempts on {} bytes", count.get(), len - from));
        }
    }
    Ok((log, found, calls))
}
