//! The properties of one thread at a time.

use crate::ast::*;
use crate::build::{build, build_with};
use crate::ctxs::SimH;
use crate::env::{self, Bad, Env, Fault, K, PF};
use crate::forms::*;
use crate::model::{E, Skip, bare, blank, text_hash};
use crate::run::*;
use crate::tape::{Tape, mix};
use crate::value::V;
use neure::err::Error;

use neure::span::Span;

/// The library itself panicked, or does not come to an end.
pub fn crashed(s: &Scene, o: &Obs) -> Res {
    match &o.ret {
        Ret::Panic(PK::Lib(m)) => Err(format!("{}: the library panicked: {m}", s.show())),
        _ => Ok(()),
    }
}

struct Seq<'s> {
    s: &'s Scene,
    steps: &'s [Step<'s>],
}

/// One attempt of a history on one context.
pub struct Step<'s> {
    pub node: &'s Node,
    pub how: How<'s>,
    pub idx: Option<(u64, Fault, usize)>,
}

#[derive(Clone, Copy)]
pub enum How<'s> {
    Mode(Mode),
    IsMat,
    Policy(u8, &'s Node, &'s Node),
    Entry(u8, u8, &'s Node, u32),
}

impl How<'_> {
    fn show(&self) -> String {
        match self {
            How::Mode(Mode::Mat) => "try_mat".into(),
            How::Mode(Mode::Rx) => "try_parse".into(),
            How::Mode(Mode::Con) => "ctor_handler".into(),
            How::Mode(Mode::Dir) => "construct".into(),
            How::IsMat => "is_mat".into(),
            How::Policy(w, b, a) => format!("{} (before {}, after {})", POLICIES[*w as usize], b.show(), a.show()),
            How::Entry(f, s, b, _) => {
                format!("{} of {} with b = {}, a", FORMS[*f as usize], SHAPES[*s as usize], b.show())
            }
        }
    }
}

/// what happened: (position before, outcome)
impl Job for Seq<'_> {
    type R = Vec<(usize, Obs)>;
    fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Self::R {
        let mut ctx = C::at(src, skip, self.s.start);
        let mut out = vec![];
        for st in self.steps {
            let b = build::<C>(st.node);
            let pos = ctx.offset();
            let mut e = self.s.env();
            e.idx = st.idx;
            let o = match st.how {
                How::Mode(m) => run_one(&b.p, &mut ctx, m, e),
                how => {
                    let (x, y) = match how {
                        How::Policy(_, x, y) => (build::<C>(x), build::<C>(y)),
                        How::Entry(_, _, x, _) => (build::<C>(x), build::<C>(x)),
                        _ => (build::<C>(st.node), build::<C>(st.node)),
                    };
                    env::swap(e);
                    let r = guarded(|| match how {
                        How::IsMat => {
                            if ctx.is_mat(&b.p) { Ok(Ret::Span(ctx.offset(), 0)) } else { Err(Error::Fail) }
                        }
                        How::Policy(w, ..) => match ctx.policy(w, &b.p, &x.p, &y.p) {
                            Some(r) => r.map(|s| Ret::Span(s.beg, s.len)),
                            None => ctx.try_mat(&b.p).map(|s| Ret::Span(s.beg, s.len)),
                        },
                        How::Entry(f, s, _, id) => ctx.entry(f, s, only(&b.p), only(&x.p), id).map(Ret::Val),
                        How::Mode(_) => unreachable!(),
                    });
                    let ret = match r {
                        Ok(Ok(r)) => r,
                        Ok(Err(e)) => Ret::Err(e),
                        Err(p) => Ret::Panic(p),
                    };
                    Obs { ret, pos: ctx.offset(), env: env::swap(Env::new()) }
                }
            };
            let stop = matches!(o.ret, Ret::Panic(_));
            out.push((pos, o));
            if stop {
                break;
            }
        }
        out
    }
}

fn err_faults(t: &mut Tape, s: &mut Scene) -> Option<Pred> {
    let n = [0, 1, 1, 2][t.draw(4) as usize];
    add_faults(t, s, n, &no_panics)
}

/// P01 and P02: the position after a failure.
fn position(t: &mut Tape, rep: &mut Rep, con: bool) -> Res {
    let without: &'static [&'static str] = if con { &[] } else { &["dynthen", "func"] };
    let o = Opts { rx: if con { 0 } else { 4 }, without, many: true, ..Opts::default() };
    let mut s = scene(t, &o);
    if err_faults(t, &mut s).is_none() {
        rep.discard = true;
        return Ok(());
    }
    // more patterns for the same context
    let extra = t.draw(3) as usize;
    let prof = Opts { nodes: 6, depth: 3, ..o.clone() }.profile(t, s.ck);
    let mut more: Vec<Node> = vec![];
    for i in 0..extra + 2 {
        let mut g = Gen::new(t, prof.clone());
        g.start_at(1000 * (i as u32 + 1));
        more.push(g.root(!con || i >= extra));
    }
    let mut steps = vec![];
    for i in 0..1 + extra {
        let node = if i == 0 { &s.node } else { &more[i - 1] };
        let rx = rx_able(node);
        let how = match (con, t.draw(6)) {
            (false, 4) => How::IsMat,
            (false, 5) | (false, 3) => How::Policy(t.draw(3) as u8, &more[extra], &more[extra + 1]),
            (true, 4 | 5) if rx && !mid_ok(node) && !mid_ok(&more[extra]) => {
                let form = t.draw(FORMS.len() as u32) as u8;
                let mut shape = if form < 3 { t.draw(SHAPES.len() as u32) as u8 } else { 0 };
                if shape == 5 && node.nullable() && more[extra].nullable() {
                    shape = 1;
                }
                How::Entry(form, shape, &more[extra], 9000)
            }
            (false, 2) if restores(node, Mode::Rx) => How::Mode(Mode::Rx),
            (true, 2 | 3) if restores(node, Mode::Dir) => How::Mode(Mode::Dir),
            _ => How::Mode(s.mode),
        };
        let idx = match t.draw(3) {
            2 => Some((t.draw(40) as u64, if t.draw(4) == 3 { Fault::Flip } else { Fault::Err }, env::any_err(t, 1500))),
            _ => None,
        };
        // the reference is only there to tell that it ends
        let mut c = s.clone();
        c.node = node.clone();
        if c.predict().over {
            rep.discard = true;
            return Ok(());
        }
        steps.push(Step { node, how, idx });
    }
    rep.case(s.hash());
    for st in &steps {
        rep.case(crate::tape::hash_str(&st.node.show()) ^ st.idx.map_or(0, |x| x.0 + 1));
    }
    let out = dispatch(s.ck, &s.src, Seq { s: &s, steps: &steps });
    for (i, ((pos, o), st)) in out.iter().zip(&steps).enumerate() {
        let mut one = s.clone();
        one.node = st.node.clone();
        account(rep, &one, o);
        let show = || {
            let idx = st.idx.map_or(String::new(), |(n, f, _)| format!(" with a fault ({f:?}) from callback {n} on"));
            format!("attempt {i} at {pos}: {} of {}{idx}", st.how.show(), st.node.show())
        };
        rep.say(|| format!("{}\n  {}: {}", s.show(), show(), o.show()));
        crashed(&one, o)?;
        if matches!(o.ret, Ret::Err(_)) && o.pos != *pos {
            return Err(format!("{}\n  {}: failed with {:?} and left the position at {}", s.show(), show(), err(o), o.pos));
        }
        if let Some(b) = noticed(o, &[Bad::Nested]) {
            return Err(format!("{}\n  {}: {b}", s.show(), show()));
        }
    }
    Ok(())
}

fn err(o: &Obs) -> Option<Error> {
    match &o.ret {
        Ret::Err(e) => Some(*e),
        _ => None,
    }
}

pub fn p01(t: &mut Tape, rep: &mut Rep) -> Res {
    position(t, rep, false)
}

pub fn p02(t: &mut Tape, rep: &mut Rep) -> Res {
    position(t, rep, true)
}

pub fn p03(t: &mut Tape, rep: &mut Rep) -> Res {
    let o = Opts { focus: &["or", "alts", "pairs", "opt", "branch"], many: true, ..Opts::default() };
    diff(t, rep, &o, &|n| {
        matches!(n, N::Or(..) | N::Alts(_, false, _) | N::Pairs(_, false, _) | N::Opt(_) | N::Branch { .. })
    })
}

pub fn p04(t: &mut Tape, rep: &mut Rep) -> Res {
    let o = Opts { focus: &["longest", "alts_ltm", "pairs_ltm"], many: true, ..Opts::default() };
    diff(t, rep, &o, &|n| matches!(n, N::Longest(..) | N::Alts(_, true, _) | N::Pairs(_, true, _)))
}

pub fn p05(t: &mut Tape, rep: &mut Rep) -> Res {
    let o = Opts { focus: &["unit", "repeat", "repeat2", "collect"], many: true, ..Opts::default() };
    diff(t, rep, &o, &|n| matches!(n, N::Unit { .. } | N::Repeat(..) | N::Repeat2(..) | N::Collect { .. }))
}

pub fn p06(t: &mut Tape, rep: &mut Rep) -> Res {
    let o = Opts { focus: &["sep", "sep2", "sepcollect"], many: true, ..Opts::default() };
    diff(t, rep, &o, &|n| matches!(n, N::Sep { .. } | N::Sep2 { .. } | N::SepCollect { .. }))
}

pub fn p07(t: &mut Tape, rep: &mut Rep) -> Res {
    let o = Opts { focus: &["then", "ifthen", "prefix", "suffix", "enclose", "seponce", "sel", "around", "ws"], many: true, ..Opts::default() };
    diff(t, rep, &o, &|n| {
        matches!(
            n,
            N::Then(..) | N::IfThen(..) | N::Prefix(..) | N::Suffix(..) | N::Enclose(..) | N::SepOnce(..) | N::Sel(..) | N::Around(..) | N::Ws { .. }
        )
    })
}

/// P08: spans.
pub fn p08(t: &mut Tape, rep: &mut Rep) -> Res {
    // a match with an after part reports the pattern's own span
    let o = Opts { rx: 3, without: &["around"], many: true, ..Opts::default() };
    let mut s = scene(t, &o);
    let Some(pred) = err_faults(t, &mut s) else {
        rep.discard = true;
        return Ok(());
    };
    rep.case(s.hash());
    let obs = s.observe();
    account(rep, &s, &obs);
    rep.say(|| format!("{}\n  expected {}\n  got      {}", s.show(), pred.exp.show(), obs.show()));
    crashed(&s, &obs)?;
    let bad = |m: String| Err(format!("{}: {m}; got {}", s.show(), obs.show()));
    if let Some(b) = noticed(&obs, &[Bad::Span]) {
        return bad(b);
    }
    let len = s.src.len();
    let mid = |p: usize| s.ck.text() && !mid_ok(&s.node) && !s.src.is_char_boundary(p);
    if obs.ok() && (obs.pos > len || obs.pos < s.start || mid(obs.pos)) {
        return bad("the position is out of place".into());
    }
    if let Ret::Span(b, l) = obs.ret {
        if b < s.start || b + l != obs.pos || b + l > len || mid(b) {
            return bad("the span does not lie between the start and the position".into());
        }
        let jumps = s.node.has(&|n| matches!(n, N::RxBuilder(..) | N::Around(..)));
        if s.ck.skip() == Skip::No && b != s.start && !jumps {
            return bad(format!("the span does not start at {}", s.start));
        }
        if let Exp::Span(xb, _, xe) = pred.exp
            && obs.pos == xe
            && xb != b
        {
            return bad(format!("the span should start at {xb}"));
        }
    }
    if obs.ok() {
        let mut toks = vec![];
        if let Ret::Val(v) = &obs.ret {
            v.toks(&mut toks);
        }
        for (b, l, _) in toks {
            let (b, e) = (b as usize, b as usize + l as usize);
            if b < s.start || e > obs.pos || mid(b) || mid(e) {
                return bad(format!("a handler was given {b}..{e}, outside the text of the construction"));
            }
        }
        // a leaf's own span, as a value
        if let (Ret::Val(v), Exp::Val(x, e)) = (&obs.ret, &pred.exp)
            && obs.pos == *e
            && v.shape_only() == x.shape_only()
            && !v.same(x)
        {
            return bad(format!("the handlers should have been given the spans in {}", x.show()));
        }
    }
    Ok(())
}

/// P09: lookahead.
pub fn p09(t: &mut Tape, rep: &mut Rep) -> Res {
    if t.draw(3) < 2 {
        let o = Opts { focus: &["assert", "unit", "ifthen"], rx: 2, ..Opts::default() };
        return diff(t, rep, &o, &|n| {
            matches!(n, N::Assert(..) | N::IfThen(..) | N::Unit { cond: Cond::Rx(_), .. })
        });
    }
    // a query
    let o = Opts { rx: 4, ..Opts::default() };
    let mut s = scene(t, &o);
    if err_faults(t, &mut s).is_none() {
        rep.discard = true;
        return Ok(());
    };
    let which = t.draw(2);
    let idx = if t.draw(3) == 2 { Some((t.draw(40) as u64, Fault::Err, env::any_err(t, 1500))) } else { None };
    rep.case(s.hash() ^ which as u64 ^ idx.map_or(0, |x| x.0 * 8 + 8));
    struct Query<'s>(&'s Scene, u32, Option<(u64, Fault, usize)>);
    impl Job for Query<'_> {
        type R = (Result<Result<bool, Error>, PK>, usize, Obs);
        fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Self::R {
            let s = self.0;
            let b = build::<C>(&s.node);
            let mut ctx = C::at(src, skip, s.start);
            let mut e = s.env();
            e.idx = self.2;
            env::swap(e);
            let r = guarded(|| {
                if self.1 == 0 {
                    neure::ctx::Assert::try_assert(&mut ctx, &b.p)
                } else {
                    Ok(neure::ctx::Assert::assert(&mut ctx, &b.p))
                }
            });
            let pos = ctx.offset();
            // the same attempt for real
            ctx.set_offset(s.start);
            let mut e = s.env();
            e.idx = self.2;
            let o = run_one(&b.p, &mut ctx, Mode::Mat, e);
            (r, pos, o)
        }
    }
    let (r, pos, o) = dispatch(s.ck, &s.src, Query(&s, which, idx));
    account(rep, &s, &o);
    crashed(&s, &o)?;
    rep.say(|| format!("query: {}\n  {r:?} at {pos}, the match itself: {}", s.show(), o.show()));
    let bad = |m: &str| Err(format!("query (assert): {}: {m}: {r:?}, position {pos}; the match itself: {}", s.show(), o.show()));
    if pos != s.start {
        return bad("the position moved");
    }
    match &r {
        Ok(Ok(b)) if *b == o.ok() => Ok(()),
        _ => bad("the answer differs"),
    }
}

/// P12: what the handler made reaches the caller.
pub fn p12(t: &mut Tape, rep: &mut Rep) -> Res {
    if t.draw(4) == 0 {
        return entry_diff(t, rep);
    }
    let o = Opts { rx: 0, focus: &["map", "pat", "then", "sep", "repeat", "alts_ltm"], many: true, ..Opts::default() };
    let mut s = scene(t, &o);
    let Some(pred) = err_faults(t, &mut s) else {
        rep.discard = true;
        return Ok(());
    };
    rep.case(s.hash());
    let obs = s.observe();
    account(rep, &s, &obs);
    rep.say(|| format!("{}\n  expected {}\n  got      {}", s.show(), pred.exp.show(), obs.show()));
    crashed(&s, &obs)?;
    let Ret::Val(v) = &obs.ret else { return Ok(()) };
    let bad = |m: String| Err(format!("{}: {m}; got {}", s.show(), obs.show()));
    let mut toks = vec![];
    v.toks(&mut toks);
    let mut texts = vec![];
    v.texts(&mut texts);
    let texts: std::collections::HashSet<_> = texts.into_iter().collect();
    let mut seen = std::collections::HashSet::new();
    let mut end = 0;
    let reorders = false;
    for (b, l, uid) in &toks {
        if !seen.insert(*uid) {
            return bad(format!("the value of handler call {uid} appears twice"));
        }
        match obs.env.handled.get(*uid as usize) {
            Some(x) if *x == (*b, *l) => {}
            x => return bad(format!("the leaf {b}..{} says it is from handler call {uid}, which had {x:?}", b + l)),
        }
        if *b < end && !reorders {
            return bad(format!("the leaf at {b} comes after one that ends at {end}"));
        }
        end = b + l;
        let text = text_hash(&s.src.as_bytes()[*b as usize..(b + l) as usize]);
        if !texts.contains(&(*uid, text)) {
            return bad(format!("the leaf at {b} has another text"));
        }
    }
    let mut maps = vec![];
    v.maps(&mut maps);
    // every mapped value was really mapped, as often as it appears
    let mut pool = obs.env.mapped.clone();
    for m in &maps {
        match pool.iter().position(|p| p == m) {
            Some(i) => {
                pool.swap_remove(i);
            }
            None => return bad(format!("mapper #{} was not called with the value it appears with", m.0)),
        }
    }
    // where nothing is ever abandoned, everything is called exactly once
    let linear = !s.node.has(&|n| {
        matches!(
            n,
            N::Or(..) | N::Longest(..) | N::Alts(..) | N::Pairs(..) | N::Opt(_) | N::Sep { .. } | N::Sep2 { .. }
                | N::SepCollect { .. } | N::Repeat(..) | N::Repeat2(..) | N::Collect { .. } | N::Branch { .. } | N::Sel(..)
                | N::Map(_, 2) | N::Ws { .. } | N::Rec(_) | N::Ref(_) | N::Prefix(..) | N::Suffix(..) | N::Enclose(..) | N::SepOnce(..)
        )
    });
    if linear && obs.env.handled.len() != toks.len() {
        return bad(format!("{} handler calls for {} leaves", obs.env.handled.len(), toks.len()));
    }
    if linear && obs.env.mapped.len() != maps.len() {
        return bad(format!("{} mapper calls for {} mapped values", obs.env.mapped.len(), maps.len()));
    }
    if linear {
        rep.hit("linear grammar");
    }
    // leaves and mappers against the reference
    if compare(&obs, &pred.exp, s.start, false).is_some() {
        let leafs = |n: &N| {
            matches!(
                n,
                N::Unit { .. } | N::Lit { .. } | N::Consume(_) | N::ConsumeAll | N::Start | N::End | N::Empty | N::Clo { .. }
                    | N::Assert(..) | N::RxWrap(..) | N::RxBuilder(..) | N::Pat(_) | N::Map(..)
            )
        };
        // only the way from the span to the value is of interest here
        if let Blame::Yes(w) = blame_leaf(&s, &leafs) {
            return bad(w);
        }
        rep.foreign += 1;
    }
    Ok(())
}

/// A leaf that returns something else than its handler made of its own span.
fn blame_leaf(s: &Scene, mine: &dyn Fn(&N) -> bool) -> Blame {
    let mut nodes: Vec<&Node> = vec![];
    s.node.walk(&mut |n| nodes.push(n));
    for n in nodes.into_iter().filter(|n| closed(n) && mine(&n.k)) {
        if matches!(n.k, N::Map(..)) {
            if let Some(m) = wrong(s, n) {
                return Blame::Yes(m);
            }
            continue;
        }
        for p in 0..=s.src.len() {
            if s.ck.text() && !s.src.is_char_boundary(p) {
                continue;
            }
            let mut one = s.clone();
            one.node = n.clone();
            one.start = p;
            one.mode = Mode::Con;
            let c = one.observe();
            one.mode = Mode::Mat;
            let m = one.observe();
            if let (Ret::Val(V::Tok { b, l, .. }), Ret::Span(x, y)) = (&c.ret, &m.ret)
                && (*b as usize, *l as usize) != (*x, *y)
            {
                return Blame::Yes(format!("{} matches {x}..{} but its handler was given {b}..{}", one.show(), x + y, b + l));
            }
        }
    }
    Blame::Foreign
}

/// The documented ways to run a pattern against the reference.
fn entry_diff(t: &mut Tape, rep: &mut Rep) -> Res {
    let o = Opts { rx: 4, without: &["consume"], nodes: 8, depth: 3, ..Opts::default() };
    let s0 = scene(t, &o);
    let prof = Opts { nodes: 4, depth: 2, ..o }.profile(t, s0.ck);
    let mut g = Gen::new(t, prof);
    g.start_at(1000);
    let b = g.root(true);
    let a = s0.node.clone();
    let form = t.draw(FORMS.len() as u32) as u8;
    let mut shape = if form < 3 { t.draw(SHAPES.len() as u32) as u8 } else { 0 };
    if shape == 5 && a.nullable() && b.nullable() {
        shape = 1;
    }
    let pat = |n: &Node, id| Box::new(Node { id, k: N::Pat(Box::new(n.clone())) });
    let (pa, pb) = (pat(&a, 9001), pat(&b, 9002));
    let node = match (form, shape) {
        (5 | 6, _) => Node { id: 9000, k: N::Map(pa, 1) },
        (_, 0) => *pa,
        (_, 1) => Node { id: 9000, k: N::Then(pa, pb) },
        (_, 2) => Node { id: 9000, k: N::Or(pa, pb) },
        (_, 3) => Node { id: 9000, k: N::Repeat(pa, Rng::Incl(0, 2)) },
        (_, 4) => Node { id: 9000, k: N::Opt(pa) },
        _ => Node { id: 9000, k: N::Sep { item: pa, sep: Box::new(b.clone()), skip: true, min: 1 } },
    };
    let mut s = s0;
    s.node = node;
    s.mode = Mode::Con;
    if shape != 0 {
        let more = sample_text(t, &b, 0, 12);
        s.src = format!("{}{more}", s.src).into();
        if shape == 5 || shape == 3 {
            let more = sample_text(t, &a, 0, 12);
            s.src = format!("{}{more}", s.src).into();
        }
    }
    let called = matches!(form, 0 | 3 | 4);
    let n = t.draw(3);
    let Some(pred) = add_faults(t, &mut s, n, &|k, f| f != Fault::Panic && (called || k != K::Handler)) else {
        rep.discard = true;
        return Ok(());
    };
    rep.case(s.hash() ^ mix(form as u64));
    let step = Step { node: &a, how: How::Entry(form, shape, &b, 9000), idx: None };
    let out = dispatch(s.ck, &s.src, Seq { s: &s, steps: std::slice::from_ref(&step) });
    let (_, obs) = &out[0];
    account(rep, &s, obs);
    rep.hit(format!("form:{}", FORMS[form as usize]));
    rep.say(|| format!("{}: {}\n  expected {}\n  got      {}", step.how.show(), s.show(), pred.exp.show(), obs.show()));
    crashed(&s, obs)?;
    if let Some(m) = compare(obs, &pred.exp, s.start, false) {
        // is the same construction right with the plain handler?
        let plain = s.observe();
        if compare(&plain, &pred.exp, s.start, false).is_none() {
            return Err(format!("{} in {}: {m}", step.how.show(), s.show()));
        }
        rep.foreign += 1;
    }
    Ok(())
}

/// P13: errors arrive.
pub fn p13(t: &mut Tape, rep: &mut Rep) -> Res {
    let o = Opts {
        rx: 1,
        // absorbing forms less often
        focus: &["then", "map", "prefix", "suffix", "enclose", "seponce", "branch", "dynthen", "rxbuilder", "unit", "clo", "pat", "rxwrap", "hold"],
        ..Opts::default()
    };
    let mut s = scene(t, &o);
    let n = 1 + t.draw(2);
    let Some(pred) = add_faults(t, &mut s, n, &|_, f| f == Fault::Err) else {
        rep.discard = true;
        return Ok(());
    };
    transient(t, &mut s, &pred);
    rep.case(s.hash());
    let obs = s.observe();
    account(rep, &s, &obs);
    rep.say(|| format!("{}\n  expected {}\n  got      {}", s.show(), pred.exp.show(), obs.show()));
    crashed(&s, &obs)?;
    let Exp::Err(E::Uid(u)) = pred.exp else { return Ok(()) };
    rep.hit("error expected");
    let want = env::err_of(u);
    if err(&obs) == Some(want) {
        return Ok(());
    }
    // not the fault's business when it goes wrong without any
    let mut c = s.clone();
    c.pf.clear();
    let (x, o) = (c.predict(), c.observe());
    if !x.over && compare(&o, &x.exp, c.start, false).is_some() {
        rep.foreign += 1;
        return Ok(());
    }
    Err(format!("{}: expected the error {want:?}, got {}", s.show(), obs.show()))
}

/// Many panics, one after the other: nothing may wear out.
fn worn(t: &mut Tape, rep: &mut Rep) -> Res {
    let o = Opts { mutex: false, ..Opts::default() };
    let mut s = if t.draw(2) == 0 {
        scene(t, &o)
    } else {
        let node = crate::threads::nested(t);
        let upto = *t.pick(&[10, 100]);
        let n = 1 + t.draw(upto) as usize;
        let src = format!("{}a{}", "(".repeat(n), ")".repeat(n));
        Scene { node, src: src.into(), ck: *t.pick(&CK_ALL), start: 0, pf: vec![], mode: Mode::Con, hm: 0, uw: false }
    };
    let calm = s.clone();
    let Some(pred) = add_faults(t, &mut s, 1, &|_, f| f == Fault::Panic) else {
        rep.discard = true;
        return Ok(());
    };
    if s.pf.is_empty() {
        rep.discard = true;
        return Ok(());
    }
    let room = 20_000 / (pred.log.len() + s.src.len() + 1) as u32;
    let most = *t.pick(&[20, 400, 1500]);
    let times = 1 + t.draw(most.min(room).max(1));
    let new = t.draw(2) == 1;
    rep.case(s.hash() ^ mix(times as u64));
    struct Worn<'s>(&'s Scene, &'s Scene, u32, bool);
    impl Job for Worn<'_> {
        type R = (Obs, Obs, Obs, u32);
        fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Self::R {
            let Worn(calm, s, times, new) = self;
            let fresh = {
                let b = build::<C>(&s.node);
                let mut ctx = C::mk(src, skip);
                ctx.set_offset(s.start);
                run_one(&b.p, &mut ctx, s.mode, calm.env())
            };
            let b = build::<C>(&s.node);
            let mut ctx = C::mk(src, skip);
            let (mut first, mut panics) = (None::<Obs>, 0);
            for _ in 0..times {
                if new {
                    ctx = C::mk(src, skip);
                }
                ctx.set_offset(s.start);
                let x = run_one(&b.p, &mut ctx, s.mode, s.env());
                panics += x.ret_is_panic() as u32;
                match &first {
                    Some(f) if x.same(f) => {}
                    Some(_) => {
                        first = Some(x);
                        break;
                    }
                    None => first = Some(x),
                }
            }
            ctx.set_offset(s.start);
            let after = run_one(&b.p, &mut ctx, s.mode, calm.env());
            (first.unwrap(), after, fresh, panics)
        }
    }
    let (bad, after, fresh, panics) = dispatch(s.ck, &s.src, Worn(&calm, &s, times, new));
    let show = || format!("{} (up to {times} times)", s.show());
    account(rep, &s, &bad);
    account(rep, &calm, &after);
    rep.say(|| format!("{}\n  {}\n  {panics} panics, afterwards {}\n  fresh      {}", show(), bad.show(), after.show(), fresh.show()));
    crashed(&s, &bad)?;
    crashed(&calm, &after)?;
    rep.hit("many panics caught");
    if panics != 0 && !bad.ret_is_panic() {
        return Err(format!("{}: after {panics} panics, it gives {} instead of another one", show(), bad.show()));
    }
    if panics != 0 && !after.same(&fresh) {
        return Err(format!("{}: after {panics} panics, the same parser gives {} where a fresh one gave {}", show(), after.show(), fresh.show()));
    }
    Ok(())
}

/// P14: panics.
pub fn p14(t: &mut Tape, rep: &mut Rep) -> Res {
    if t.draw(32) == 31 {
        return worn(t, rep);
    }
    let o = Opts { mutex: false, ..Opts::default() };
    let mut s = scene(t, &o);
    let n = t.draw(2);
    if add_faults(t, &mut s, n, &no_panics).is_none() {
        rep.discard = true;
        return Ok(());
    };
    let calm = s.clone();
    let plain = s.observe();
    if plain.env.calls == 0 {
        rep.discard = true;
        return Ok(());
    }
    let mut plans: Vec<(Scene, Option<(u64, Fault, usize)>, u32)> = vec![];
    for _ in 0..1 + t.draw(3) {
        let how = t.draw(4);
        if t.draw(2) == 0 {
            let at = t.draw(plain.env.calls.min(5000) as u32) as u64;
            plans.push((s.clone(), Some((at, Fault::Panic, 0)), how));
        } else {
            let mut c = s.clone();
            if add_faults(t, &mut c, 1, &|_, f| f == Fault::Panic).is_none() {
                rep.discard = true;
                return Ok(());
            }
            plans.push((c, None, how));
        }
    }
    rep.case(s.hash());
    for (p, i, h) in &plans {
        rep.case(p.hash() ^ i.map_or(0, |x| x.0 + 1) ^ (*h as u64) << 20);
    }
    struct Pan<'s>(&'s Scene, &'s [(Scene, Option<(u64, Fault, usize)>, u32)]);
    impl Job for Pan<'_> {
        type R = (Vec<Obs>, Vec<Obs>);
        fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Self::R {
            let s = self.0;
            let b = build::<C>(&s.node);
            let mut ctx = C::mk(src, skip);
            let (mut pan, mut after) = (vec![], vec![]);
            for (p, idx, how) in self.1 {
                let mut e = p.env();
                e.idx = *idx;
                ctx.set_offset(s.start);
                if *how == 3 {
                    // in the middle of a search
                    env::swap(e);
                    let r = guarded(|| {
                        let n = neure::ctx::MatchMulti::find_all_with(
                            &mut ctx,
                            Only(b.p.clone()),
                            |c: &mut C, r: Result<Span, Error>| match r {
                                Ok(s) if s.len > 0 => Some(s),
                                _ => {
                                    if c.offset() < c.len() {
                                        c.inc(1);
                                    }
                                    None
                                }
                            },
                            SimH,
                        )
                        .take(20)
                        .count();
                        Ret::Span(n, 0)
                    });
                    let ret = r.unwrap_or_else(Ret::Panic);
                    pan.push(Obs { ret, pos: ctx.offset(), env: env::swap(Env::new()) });
                } else {
                    pan.push(run_one(&b.p, &mut ctx, s.mode, e));
                }
                ctx.set_offset(s.start);
                after.push(run_one(&b.p, &mut ctx, s.mode, s.env()));
            }
            (pan, after)
        }
    }
    // the search form needs a pattern
    if !rx_able(&s.node) {
        plans.iter_mut().for_each(|p| p.2 = 0);
    }
    let (pan, after) = dispatch(s.ck, &s.src, Pan(&calm, &plans));
    for ((p, a), (c, i, h)) in pan.iter().zip(&after).zip(&plans) {
        account(rep, c, p);
        account(rep, &calm, a);
        let show = || format!("{} (idx {i:?}, how {h})", c.show());
        rep.say(|| format!("{}\n  {}\n  afterwards {}\n  fresh      {}", show(), p.show(), a.show(), plain.show()));
        crashed(c, p)?;
        crashed(&calm, a)?;
        if p.ret_is_panic() {
            rep.hit("panic caught");
        }
        if p.pos > s.src.len() {
            return Err(format!("{}: after the panic the position is {}, outside the input", show(), p.pos));
        }
        if !a.same(&plain) {
            return Err(format!("{}: after {}, the same parser gives {} where a fresh one gives {}", show(), p.show(), a.show(), plain.show()));
        }
    }
    Ok(())
}

/// P15: reuse.
pub fn p15(t: &mut Tape, rep: &mut Rep) -> Res {
    let o = Opts { mutex: false, focus: &["hold", "rxwrap"], ..Opts::default() };
    let s = scene(t, &o);
    let mut srcs = vec![s.src.to_string()];
    for _ in 0..2 {
        srcs.push(gen_src(t, &s.node, s.ck.skip(), 40).0);
    }
    let variant = t.draw(4);
    let seed = 1 + t.draw(1 << 16);
    #[derive(Clone)]
    struct Op {
        ctx: usize,
        at: usize,
        mode: Mode,
        idx: Option<(u64, Fault, usize)>,
        again: Option<(u64, usize, usize, Mode)>,
        cl: bool,
        fresh_ctx: bool,
        /// on a second parser that was given other parts meanwhile
        stay: bool,
    }
    let mut ops = vec![];
    for _ in 0..2 + t.draw(5) {
        let ctx = t.draw(3) as usize;
        let place = |t: &mut Tape, src: &str| {
            if t.draw(2) == 0 || src.is_empty() {
                0
            } else {
                let mut p = t.draw(src.len() as u32 + 1) as usize;
                while s.ck.text() && !src.is_char_boundary(p) {
                    p -= 1;
                }
                p
            }
        };
        let at = place(t, &srcs[ctx]);
        let mode = if rx_able(&s.node) && t.draw(3) == 2 { Mode::Mat } else { Mode::Con };
        let idx = match t.draw(4) {
            2 => Some((t.draw(60) as u64, Fault::Err, env::any_err(t, 1500))),
            3 => Some((t.draw(60) as u64, Fault::Panic, 0)),
            _ => None,
        };
        let again = if t.draw(3) == 2 {
            let c = t.draw(3) as usize;
            let m = if rx_able(&s.node) && t.draw(3) == 2 { Mode::Mat } else { Mode::Con };
            let at = place(t, &srcs[c]);
            Some((t.draw(40) as u64, c, at, m))
        } else {
            None
        };
        ops.push(Op { ctx, at, mode, idx, again, cl: t.draw(5) == 4, fresh_ctx: t.draw(3) == 2, stay: t.draw(3) == 2 });
    }
    for src in &srcs {
        for p in 0..=src.len() {
            if s.ck.text() && !src.is_char_boundary(p) {
                continue;
            }
            if !ops.iter().any(|o| o.at == p || o.stay || o.again.is_some_and(|a| a.2 == p)) {
                continue;
            }
            let mut c = s.clone();
            c.src = src.as_str().into();
            c.start = p;
            if c.predict().over {
                rep.discard = true;
                return Ok(());
            }
        }
    }
    rep.case(s.hash() ^ mix(variant as u64 * 7 + seed as u64));
    for op in &ops {
        rep.case((op.ctx * 1000 + op.at) as u64 ^ op.idx.map_or(0, |x| (x.0 + 1) << 20) ^ op.again.map_or(0, |x| (x.0 + 1) << 40));
    }
    struct Reuse<'s>(&'s Scene, &'s [String], &'s [Op], u32, u32);
    impl Job for Reuse<'_> {
        type R = Result<(Vec<String>, u64), String>;
        fn go<'a, C: Mk<'a>>(self, _src: &'a str, skip: Skip) -> Self::R {
            let Reuse(s, srcs, ops, variant, seed) = self;
            // one lifetime for all inputs
            let srcs: Vec<&'a str> = srcs.iter().map(|x| unsafe { &*(x.as_str() as *const str) }).collect();
            let used = build_with::<C>(&s.node, |b| match variant {
                1 => b.cl = true,
                2 => b.extra_hold = seed,
                3 => {
                    b.cl = true;
                    b.extra_hold = seed
                }
                _ => {}
            });
            let mut ctxs: Vec<C> = srcs.iter().map(|x| C::mk(x, skip)).collect();
            let mut log = vec![];
            let mut calls = 0;
            for (i, op) in ops.iter().enumerate() {
                let at = if op.stay { ctxs[op.ctx].offset() } else { op.at };
                let env = |again: bool| {
                    let mut e = s.env();
                    e.idx = op.idx;
                    if again && let Some((n, c, p, m)) = op.again {
                        let (used, node, src) = (used.p.clone(), s.node.clone(), srcs[c]);
                        let inner = s.env();
                        let mut inner = Some((inner.pf, inner.handler_mode, inner.mid_ok));
                        let f = move || {
                            let Some((pf, hm, mid_ok)) = inner.take() else { return };
                            let mk = || Env { pf: pf.clone(), handler_mode: hm, mid_ok, ..Env::new() };
                            let mut ctx = C::at(src, skip, p);
                            let a = run_one(&used, &mut ctx, m, mk());
                            let fresh = build::<C>(&node);
                            let mut ctx = C::at(src, skip, p);
                            let b = run_one(&fresh.p, &mut ctx, m, mk());
                            if !a.same(&b) {
                                env::bad(Bad::Other, || {
                                    format!("called again from its own callback on {src:?} at {p}: {} instead of {}", a.show(), b.show())
                                });
                            }
                        };
                        let f: Box<dyn FnMut() + 'a> = Box::new(f);
                        // it is dropped with the environment, before what it borrows
                        let f: Box<dyn FnMut() + 'static> = unsafe { std::mem::transmute(f) };
                        e.reenter = Some((n, f));
                    }
                    e
                };
                let ctx = &mut ctxs[op.ctx];
                if op.fresh_ctx {
                    *ctx = C::mk(srcs[op.ctx], skip);
                }
                ctx.set_offset(at);
                let p = if op.cl { used.p.clone() } else { used.p.clone() };
                let a = run_one(&p, ctx, op.mode, env(true));
                let fresh = build::<C>(&s.node);
                let mut c2 = C::at(srcs[op.ctx], skip, at);
                let b = run_one(&fresh.p, &mut c2, op.mode, env(false));
                calls += a.env.calls + b.env.calls;
                let bad = a.env.bad.as_ref().filter(|x| x.0 == Bad::Other).map(|x| x.1.clone());
                let line = format!(
                    "op {i}: {:?} on {:?} at {at}, fault {:?}, re-entered {:?}: {}",
                    op.mode, srcs[op.ctx], op.idx, op.again, a.show()
                );
                let why = match (&a.ret, bad) {
                    (_, Some(b)) => Some(b),
                    (Ret::Panic(PK::Lib(m)), _) => Some(format!("the library panicked: {m}")),
                    _ if !a.same(&b) => Some(format!("a fresh parser gives {}", b.show())),
                    _ => None,
                };
                drop((a, b));
                log.push(line);
                if let Some(w) = why {
                    return Err(format!("{}\n  {w}", log.join("\n  ")));
                }
                // a position left by a caught panic may be anywhere
                let pos = ctxs[op.ctx].offset();
                if pos > srcs[op.ctx].len() || (C::TEXT && !srcs[op.ctx].is_char_boundary(pos)) {
                    ctxs[op.ctx].set_offset(0);
                }
            }
            Ok((log, calls))
        }
    }
    let r = dispatch(s.ck, "", Reuse(&s, &srcs, &ops, variant, seed));
    rep.hit(format!("context:{}", s.ck.name()));
    rep.hit(format!("variant:{}", ["as built", "cloned", "extra holders", "cloned, extra holders"][variant as usize]));
    match r {
        Ok((log, calls)) => {
            rep.steps += calls;
            rep.attempts += log.len() as u64 * 2;
            rep.say(|| format!("variant {variant} (holders {seed}): {}\n  {}", s.show(), log.join("\n  ")));
            Ok(())
        }
        Err(e) => Err(format!("variant {variant} (holders {seed}): {}\n  {e}", s.show())),
    }
}

/// P16: skipping.
pub fn p16(t: &mut Tape, rep: &mut Rep) -> Res {
    if t.draw(3) == 0 {
        return spacing(t, rep);
    }
    let o = Opts { cks: &CK_SKIP, ..Opts::default() };
    let mut s = scene(t, &o);
    let n = [0, 1, 1, 2][t.draw(4) as usize];
    // failing skip patterns above all
    let cb = s.ck.skip() == Skip::Cb && t.draw(2) == 0;
    let Some(pred) = add_faults(t, &mut s, n, &|k, f| f != Fault::Panic && (!cb || k == K::Skip)) else {
        rep.discard = true;
        return Ok(());
    };
    rep.case(s.hash());
    let obs = s.observe();
    account(rep, &s, &obs);
    rep.say(|| format!("{}\n  expected {}\n  got      {}", s.show(), pred.exp.show(), obs.show()));
    crashed(&s, &obs)?;
    if let Some(m) = compare(&obs, &pred.exp, s.start, true) {
        // is it the skipping?
        let mut c = s.clone();
        c.ck = s.ck.plain();
        for src in [s.src.clone(), bare(&s.src, s.ck.skip()).into()] {
            c.src = src;
            for p in 0..=c.src.len() {
                if c.ck.text() && !c.src.is_char_boundary(p) {
                    continue;
                }
                c.start = p;
                let (x, o) = (c.predict(), c.observe());
                if !x.over && compare(&o, &x.exp, p, false).is_some() {
                    rep.foreign += 1;
                    return Ok(());
                }
            }
        }
        return Err(format!("{}: {m}", s.show()));
    }
    Ok(())
}

/// Other amounts of white space between the same tokens.
fn spacing(t: &mut Tape, rep: &mut Rep) -> Res {
    let ck = *t.pick(&CK_SKIP);
    let o = Opts { without: &["consume", "consume_all", "start", "end", "clo", "assert", "rxbuilder", "dynthen", "around", "ws"], ..Opts::default() };
    let mut prof = o.profile(t, ck);
    prof.conds = false;
    let mut g = Gen::new(t, prof);
    let node = g.root(false);
    // nothing may look at white space itself
    let uni = ck == CK::Uni;
    let spaces = || ALPHA.iter().map(|c| *c as u32).filter(|c| blank(*c, uni));
    let sees = |u: &U| spaces().any(|c| u.accepts(c, ck.text(), &mut |_| false));
    if node.has(&|n| match n {
        N::Unit { u, f, .. } => sees(u) || matches!(f, Form::Then(r) if sees(r)),
        N::Lit { i, .. } => LITS[*i as usize].contains(char::is_whitespace),
        N::Branch { .. } | N::Rec(_) | N::DynThen(..) | N::RxBuilder(..) => true,
        _ => false,
    }) {
        rep.discard = true;
        return Ok(());
    }
    // an empty token after some white space ends later than the one before it, which a
    // longest match is right to notice
    let mut empty_token = false;
    node.walk(&mut |n| empty_token |= n.nullable());
    if node.has(&|n| matches!(n, N::Longest(..) | N::Alts(_, true, _) | N::Pairs(_, true, _))) && empty_token {
        rep.discard = true;
        return Ok(());
    }
    let com = ck.skip() == Skip::Com;
    let text = sample_text(t, &node, if uni { 3 } else { 1 }, 40);
    let mut words: Vec<String> =
        text.split(|c| blank(c as u32, uni)).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    if t.draw(3) == 2 && !words.is_empty() {
        let i = t.draw(words.len() as u32) as usize;
        mutate(t, &mut words[i], 1);
        words[i].retain(|c| !blank(c as u32, uni));
        words.retain(|w| !w.is_empty());
    }
    // a comment must not begin inside of a word
    if com && words.iter().any(|w| w.contains("--") || w.contains("[[")) {
        rep.discard = true;
        return Ok(());
    }
    let lay = |t: &mut Tape| {
        let mut out = String::new();
        for (i, w) in words.iter().enumerate() {
            let n = if i == 0 { t.draw(3) } else { 1 + t.draw(3) };
            for _ in 0..n {
                out.push_str(match t.draw(4) {
                    2 if com => " --(1\n",
                    2 => "\t",
                    3 if uni => "\u{3000}",
                    3 if com => " [[;a]]",
                    3 => "\n",
                    _ => " ",
                });
            }
            out.push_str(w);
        }
        for _ in 0..t.draw(3) {
            out.push(' ');
        }
        out
    };
    let (a, b) = (words.join(" "), lay(t));
    let mk = |src: String| Scene { node: node.clone(), src: src.into(), ck, start: 0, pf: vec![], mode: Mode::Con, hm: 0, uw: false };
    let (sa, sb) = (mk(a), mk(b));
    if sa.predict().over || sb.predict().over {
        rep.discard = true;
        return Ok(());
    }
    rep.case(sa.hash() ^ mix(sb.hash()));
    let (oa, ob) = (sa.observe(), sb.observe());
    account(rep, &sa, &oa);
    account(rep, &sb, &ob);
    rep.hit("respaced");
    rep.say(|| format!("{}\n  {}\nrespaced to {:?}\n  {}", sa.show(), oa.show(), sb.src, ob.show()));
    crashed(&sa, &oa)?;
    crashed(&sb, &ob)?;
    let strip = |s: &Scene, o: &Obs| match &o.ret {
        Ret::Val(v) => {
            let rest = &s.src.as_bytes()[o.pos.min(s.src.len())..];
            let rest = bare(&String::from_utf8_lossy(rest), ck.skip());
            Some((v.words(s.src.as_bytes(), ck.skip()), rest))
        }
        _ => None,
    };
    let (wa, wb) = (strip(&sa, &oa), strip(&sb, &ob));
    if wa != wb {
        return Err(format!("{} gives {}, but on {:?} it gives {}", sa.show(), oa.show(), sb.src, ob.show()));
    }
    Ok(())
}

/// P17: parsers built while parsing.
pub fn p17(t: &mut Tape, rep: &mut Rep) -> Res {
    let o = Opts { focus: &["rxbuilder", "dynthen", "sel"], without: &["rec", "ref"], ..Opts::default() };
    let mut s = scene(t, &o);
    if !s.node.has(&|n| matches!(n, N::RxBuilder(..) | N::DynThen(..))) {
        rep.discard = true;
        return Ok(());
    }
    let n = t.draw(3);
    let only = t.draw(2) == 0;
    let Some(pred) = add_faults(t, &mut s, n, &|k, f| f != Fault::Panic && (!only || k == K::Builder)) else {
        rep.discard = true;
        return Ok(());
    };
    rep.case(s.hash());
    struct Logged<'s>(&'s Scene);
    impl Job for Logged<'_> {
        type R = Obs;
        fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Obs {
            let s = self.0;
            let b = build::<C>(&s.node);
            let mut ctx = C::at(src, skip, s.start);
            let mut e = s.env();
            e.log = Some(vec![]);
            run_one(&b.p, &mut ctx, s.mode, e)
        }
    }
    let obs = dispatch(s.ck, &s.src, Logged(&s));
    account(rep, &s, &obs);
    rep.say(|| format!("{}\n  expected {}\n  got      {}", s.show(), pred.exp.show(), obs.show()));
    let mine = |n: &N| matches!(n, N::RxBuilder(..) | N::DynThen(..) | N::Sel(..));
    if let Some(m) = compare(&obs, &pred.exp, s.start, false) {
        return match blame(&s, &mine) {
            Blame::Foreign => {
                rep.foreign += 1;
                Ok(())
            }
            Blame::Yes(w) => Err(format!("{}: {m}\n  {w}", s.show())),
            Blame::Unexplained => Err(format!("{}: {m}", s.show())),
        };
    }
    let pick = |l: &[env::Ev]| l.iter().filter(|e| e.k == K::Builder).map(|e| (e.site, e.key)).collect::<Vec<_>>();
    let (want, got) = (pick(&pred.log), pick(obs.env.log.as_deref().unwrap_or(&[])));
    rep.hit(if want.is_empty() { "builder not reached" } else { "builder called" });
    // one attempt, one builder: how often others attempt theirs is their business
    let builders = |n: &Node| n.has(&|n| matches!(n, N::RxBuilder(..) | N::DynThen(..)));
    let alone = matches!(s.node.k, N::RxBuilder(..) | N::DynThen(..)) && !s.node.kids().into_iter().any(builders);
    if alone && want != got {
        // unless its part does not answer as it should
        if matches!(blame(&s, &|n| !mine(n)), Blame::Yes(_)) {
            rep.foreign += 1;
            return Ok(());
        }
        return Err(format!("{}: the builders were called with {got:?} instead of {want:?}", s.show()));
    }
    Ok(())
}

/// P22: recursion.
pub fn p22(t: &mut Tape, rep: &mut Rep) -> Res {
    match t.draw(8) {
        0 => return undefined(t, rep),
        1 => return deep(t, rep),
        _ => {}
    }
    let o = Opts { focus: &["rec", "ref"], mutex: false, nodes: 12, ..Opts::default() };
    let mut s = scene(t, &o);
    if !s.node.has(&|n| matches!(n, N::Ref(_))) {
        rep.discard = true;
        return Ok(());
    }
    let n = [0, 0, 1, 2][t.draw(4) as usize];
    let Some(pred) = add_faults(t, &mut s, n, &no_panics) else {
        rep.discard = true;
        return Ok(());
    };
    let depth = pred.depth + 2;
    if depth > 60 {
        rep.discard = true;
        return Ok(());
    }
    // the same grammar, written out
    let mut left = 3000i32;
    let Some(flat) = unroll(&s.node, &mut vec![], depth, &mut left) else {
        rep.discard = true;
        return Ok(());
    };
    let panic_at = if t.draw(3) == 2 { Some((t.draw(60) as u64, Fault::Panic, 0)) } else { None };
    rep.case(s.hash() ^ panic_at.map_or(0, |x| x.0 + 1));
    struct Rec<'s>(&'s Scene, &'s Node, Option<(u64, Fault, usize)>);
    impl Job for Rec<'_> {
        type R = [Obs; 4];
        fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Self::R {
            let s = self.0;
            let rec = build::<C>(&s.node);
            let flat = build::<C>(self.1);
            let one = |b: &crate::build::P<'a, C>, idx| {
                let mut ctx = C::at(src, skip, s.start);
                let mut e = s.env();
                e.idx = idx;
                run_one(b, &mut ctx, s.mode, e)
            };
            [one(&rec.p, None), one(&flat.p, None), one(&rec.p, self.2), one(&rec.p, None)]
        }
    }
    let [a, b, p, c] = dispatch(s.ck, &s.src, Rec(&s, &flat, panic_at));
    account(rep, &s, &a);
    rep.hit(format!("reference depth:{}", (pred.depth / 8) * 8));
    rep.say(|| format!("{}\n  recursive {}\n  written out {}\n  {panic_at:?} {}\n  again {}", s.show(), a.show(), b.show(), p.show(), c.show()));
    for o in [&a, &p, &c] {
        crashed(&s, o)?;
        if let Some(m) = noticed(o, &[Bad::Other]) {
            return Err(format!("{}: {m}", s.show()));
        }
    }
    if !a.same(&b) {
        return Err(format!("{}: the recursive parser gives {}, the grammar written out gives {}", s.show(), a.show(), b.show()));
    }
    if !c.same(&a) {
        return Err(format!("{}: first {}, after {} it gives {}", s.show(), a.show(), p.show(), c.show()));
    }
    if let Some(m) = compare(&a, &pred.exp, s.start, false) {
        return match blame(&s, &|n| matches!(n, N::Rec(_) | N::Ref(_))) {
            Blame::Foreign => {
                rep.foreign += 1;
                Ok(())
            }
            Blame::Yes(w) => Err(format!("{}: {m}\n  {w}", s.show())),
            Blame::Unexplained => Err(format!("{}: {m}", s.show())),
        };
    }
    Ok(())
}

fn unroll(n: &Node, recs: &mut Vec<(u32, Node)>, depth: u32, left: &mut i32) -> Option<Node> {
    *left -= 1;
    if *left < 0 {
        return None;
    }
    match &n.k {
        N::Rec(a) => {
            recs.push((n.id, (**a).clone()));
            let r = unroll(a, recs, depth, left);
            recs.pop();
            r
        }
        N::Ref(r) => {
            if depth == 0 {
                return Some(Node { id: n.id, k: N::Fail });
            }
            let i = recs.iter().rposition(|x| x.0 == *r)?;
            let body = recs[i].1.clone();
            // inside the body of an outer definition the inner ones are not in scope
            let mut scope = recs[..=i].to_vec();
            unroll(&body, &mut scope, depth - 1, left)
        }
        _ => {
            let mut out = n.clone();
            for k in out.kids_mut() {
                *k = unroll(k, recs, depth, left)?;
            }
            Some(out)
        }
    }
}

/// The self-reference is used before there is a definition.
fn undefined(t: &mut Tape, rep: &mut Rep) -> Res {
    let ck = *t.pick(&CK_ALL);
    let o = Opts { nodes: 6, depth: 3, without: &["rec", "ref"], mutex: false, ..Opts::default() };
    let prof = o.profile(t, ck);
    let node = Gen::new(t, prof).root(true);
    let (src, start) = gen_src(t, &node, Skip::No, 30);
    let sync = t.draw(2) == 1;
    let s = Scene { node, src: src.into(), ck, start, pf: vec![], mode: Mode::Con, hm: 0, uw: false };
    rep.case(s.hash() ^ sync as u64);
    struct Undef<'s>(&'s Scene, bool);
    impl Job for Undef<'_> {
        type R = (Vec<Obs>, Obs, Obs);
        fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Self::R {
            let s = self.0;
            let body = build::<C>(&s.node);
            let ctx = || C::at(src, skip, s.start);
            let mut early = vec![];
            let rec: crate::build::P<'a, C> = if self.1 {
                let r = neure::regex::rec_parser_sync::<C, V, crate::build::P<'a, C>, SimH>(|me| {
                    let me = crate::build::wrap(me, |v| v);
                    early.push(run_one(&me, &mut ctx(), Mode::Con, s.env()));
                    early.push(run_one(&me, &mut ctx(), Mode::Mat, s.env()));
                    body.p.clone()
                });
                crate::build::wrap(r, |v| v)
            } else {
                let r: neure::regex::RecursiveCtor<'a, C, V, SimH> = neure::regex::rec_parser(|me| {
                    let me = crate::build::wrap(me, |v| v);
                    early.push(run_one(&me, &mut ctx(), Mode::Con, s.env()));
                    early.push(run_one(&me, &mut ctx(), Mode::Mat, s.env()));
                    body.p.clone()
                });
                crate::build::wrap(r, |v| v)
            };
            let late = run_one(&rec, &mut ctx(), Mode::Con, s.env());
            let plain = run_one(&body.p, &mut ctx(), Mode::Con, s.env());
            (early, late, plain)
        }
    }
    let (early, late, plain) = dispatch(s.ck, &s.src, Undef(&s, sync));
    rep.hit("used before defined");
    rep.attempts += 4;
    rep.say(|| format!("self-reference used before the definition of {} (sync {sync})", s.show()));
    for o in &early {
        // a failing skip pattern cannot occur here, so the reference itself must answer
        if !matches!(o.ret, Ret::Err(_)) || o.pos != s.start {
            return Err(format!("a self-reference used before its definition (sync {sync}) at {} gives {}", s.start, o.show()));
        }
    }
    if !late.same(&plain) {
        return Err(format!("{} as a recursive definition (sync {sync}): {} instead of {}", s.show(), late.show(), plain.show()));
    }
    Ok(())
}

/// Deep nesting, against the answer that is known.
fn deep(t: &mut Tape, rep: &mut Rep) -> Res {
    let ck = *t.pick(&CK_ALL);
    let upto = *t.pick(&[20, 200, 1500]);
    let n = 1 + t.draw(upto) as usize;
    let cut = t.draw(4);
    let sync = t.draw(2) == 1;
    // rec(x) = "(" x ")" or "a"
    let lit = |id, i| Box::new(Node { id, k: N::Lit { form: 0, i } });
    let inner = Node { id: 2, k: N::Enclose(Box::new(Node { id: 3, k: N::Ref(1) }), lit(4, 3), lit(5, 4)) };
    let body = match t.draw(3) {
        0 => Node { id: 6, k: N::Or(Box::new(inner), lit(7, 0)) },
        1 => Node { id: 6, k: N::Alts(t.draw(3) as u8, true, vec![inner, *lit(7, 0)]) },
        _ => Node { id: 6, k: N::Alts(t.draw(3) as u8, false, vec![inner, *lit(7, 0)]) },
    };
    let node = Node { id: 1, k: N::Rec(Box::new(body)) };
    let closing = match cut {
        3 => n - 1,
        _ => n,
    };
    let src = format!("{}a{}", "(".repeat(n), ")".repeat(closing));
    let mut s = Scene { node, src: src.into(), ck, start: 0, pf: vec![], mode: if t.draw(2) == 0 { Mode::Con } else { Mode::Mat }, hm: 0, uw: false };
    if cut == 2 {
        let key = (n as u64) << 20 | 1;
        s.pf.push(PF { k: K::Handler, site: 0, key, f: Fault::Err, uid: 1000, once: false });
    }
    rep.case(s.hash() ^ sync as u64);
    struct Deep<'s>(&'s Scene, bool);
    impl Job for Deep<'_> {
        type R = [Obs; 2];
        fn go<'a, C: Mk<'a>>(self, src: &'a str, skip: Skip) -> Self::R {
            let s = self.0;
            let b = build_with::<C>(&s.node, |b| b.sync_rec = self.1);
            let one = || run_one(&b.p, &mut C::mk(src, skip), s.mode, s.env());
            [one(), one()]
        }
    }
    let outs = dispatch(s.ck, &s.src, Deep(&s, sync));
    rep.hit(format!("nesting below:{}", [20, 200, 2000].iter().find(|x| n < **x).unwrap()));
    let good = closing == n && (cut != 2 || s.mode == Mode::Mat);
    for o in &outs {
        account(rep, &s, o);
        let ok = match &o.ret {
            Ret::Span(b, l) => good && *b == 0 && *l == 2 * n + 1 && o.pos == 2 * n + 1,
            Ret::Val(V::Tok { b, l, .. }) => good && *b as usize == n && *l == 1 && o.pos == 2 * n + 1,
            Ret::Err(_) => !good && o.pos == 0,
            _ => false,
        };
        rep.say(|| format!("nesting {n}, closed {closing}, sync {sync}: {}", o.show()));
        if !ok {
            let what = if s.src.len() < 200 { s.show() } else { format!("nesting {n} of {}", s.node.show()) };
            return Err(format!("{what} (sync {sync}): {}", o.show()));
        }
    }
    Ok(())
}
