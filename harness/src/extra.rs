//! More runs for P23, of parsers that the grammars do not contain: patterns that step back,
//! and units that count their checks. What they answer is compared between the builds only.

use crate::ast::{ALPHA, SETS, in_set};
use crate::run::{Rep, Res};
use crate::tape::Tape;
use neure::prelude::*;
use neure::regex::Regex;
use std::fmt::Debug;

fn back(ctx: &mut CharsCtx<'_>) -> Result<Span, neure::err::Error> {
    let at = Context::offset(ctx);
    let to = ctx.dat()[..at].char_indices().next_back().map_or(0, |x| x.0);
    Context::set_offset(ctx, to);
    Ok(Span::new(to, 0))
}

fn stay(ctx: &mut CharsCtx<'_>) -> Result<Span, neure::err::Error> {
    Ok(Span::new(Context::offset(ctx), 0))
}

fn show<T: Debug>(ctx: &mut CharsCtx<'_>, r: Result<T, neure::err::Error>) -> String {
    format!("{r:?} at {}", Context::offset(ctx))
}

pub fn step_back(t: &mut Tape, rep: &mut Rep) -> Res {
    let n = 1 + t.draw(6);
    let src: String = (0..n).map(|_| *t.pick(&['a', 'b', 'a', 'é', '中'])).collect();
    let cut: Vec<usize> = src.char_indices().map(|x| x.0).chain([src.len()]).collect();
    let at = *t.pick(&cut);
    let mat = t.draw(3) == 2;
    let which = t.draw(20);
    let mut ctx = CharsCtx::new(&src);
    Context::set_offset(&mut ctx, at);
    let c = &mut ctx;
    macro_rules! go {
        ($t:ty, $p:expr) => {{
            let p = $p;
            if mat {
                let r = c.try_mat(&p);
                show(c, r)
            } else {
                let r = c.ctor_span::<_, $t>(&p);
                show(c, r)
            }
        }};
    }
    let out = match which {
        0 => go!(Option<Span>, back.opt()),
        1 => go!(Span, back.or("a")),
        2 => go!(Span, "a".or(back)),
        3 => go!(Span, back.longest("a")),
        4 => go!(Vec<Span>, back.repeat(1..3)),
        5 => go!([Option<Span>; 2], back.repeat2::<1, 2>()),
        6 => go!((Span, Span), back.then("a")),
        7 => go!((Span, Span), "a".then(back)),
        8 => go!(Span, "a".enclose(back, back)),
        9 => go!(Span, "a".prefix(back)),
        10 => go!(Span, stay.suffix(back)),
        11 => go!((Span, Option<Span>), "a".if_then(back, back)),
        12 => go!((Span, Span), back.sep_once("a", back)),
        13 => go!(Span, neure::regex::vector(["a", "b"]).prefix(back)),
        14 => go!(Span, neure::regex::array([back as fn(&mut CharsCtx<'_>) -> Result<Span, neure::err::Error>, stay])),
        15 => go!(Span, neure::regex::array_ltm([back as fn(&mut CharsCtx<'_>) -> Result<Span, neure::err::Error>, stay])),
        16 => go!([Option<Span>; 2], back.sep2::<_, 1, 2>(stay)),
        17 => go!(Span, back.if_else(|c: &CharsCtx<'_>| Ok(Context::offset(c) % 2 == 1), stay)),
        18 => go!(Span, back.then(back).pat()),
        _ => go!(Span, !back.then("a")),
    };
    rep.hit("steps back");
    rep.attempts += 1;
    rep.case(crate::tape::hash_str(&format!("{which}{src}{at}{mat}")));
    rep.say(|| format!("step back {which} on {src:?} from {at} ({mat}): {out}"));
    Ok(())
}

pub fn counting(t: &mut Tape, rep: &mut Rep) -> Res {
    let (a, b) = (t.draw(SETS) | t.draw(SETS), t.draw(SETS) | t.draw(SETS));
    let count = t.draw(4) as usize;
    let n = 1 + t.draw(6);
    let src: String = (0..n).map(|_| *t.pick(&ALPHA)).collect();
    let calls = std::cell::Cell::new(0u32);
    let pre = |c: &char| {
        calls.set(calls.get() + 1);
        in_set(a, *c as u32)
    };
    let unit = |c: &char| {
        calls.set(calls.get() + 100);
        in_set(b, *c as u32)
    };
    let form = t.draw(8);
    let again = 1 + t.draw(2);
    let mut ctx = CharsCtx::new(&src);
    let c = &mut ctx;
    let mut out = String::new();
    fn each<'a, P: Regex<CharsCtx<'a>>>(c: &mut CharsCtx<'a>, p: P, n: u32) -> String {
        let mut o = String::new();
        for _ in 0..n {
            let r = c.try_mat(&p);
            o += &format!("{r:?} at {}; ", Context::offset(c));
        }
        o
    }
    macro_rules! forms {
        ($u:expr) => {{
            let u = $u;
            match form % 4 {
                0 => each(c, u.once(), again),
                1 => each(c, u.many0(), again),
                2 => each(c, u.many1(), again),
                _ => each(c, u.times(1..4), again),
            }
        }};
    }
    out += &if form < 4 {
        forms!(neure::neu::prefix_cnt(pre, count, unit))
    } else {
        // the thread-safe one, used by one thread
        forms!(neure::neu::prefix_sync_cnt(pre, count, unit))
    };
    out += &format!("{} checks", calls.get());
    rep.hit("counting units");
    rep.attempts += again as u64;
    rep.case(crate::tape::hash_str(&format!("{a}{b}{count}{src}{form}{again}")));
    rep.say(|| format!("counting unit {form} on {src:?}, {count} of {a} then {b}: {out}"));
    Ok(())
}
