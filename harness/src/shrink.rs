//! Makes a failing tape smaller: fewer choices, and smaller ones.

use crate::run::{Rep, Res};
use crate::tape::Tape;
use std::time::{Duration, Instant};

pub type Prop = fn(&mut Tape, &mut Rep) -> Res;

/// Runs a tape; the choices really used and the violation, if there is one.
pub fn attempt(f: Prop, tape: &[u32]) -> (Vec<u32>, Option<String>) {
    let mut t = Tape::replay(tape.to_vec());
    let mut rep = Rep::default();
    let r = crate::guarded(f, &mut t, &mut rep);
    let mut used = t.data;
    used.truncate(t.pos);
    while used.last() == Some(&0) {
        used.pop();
    }
    (used, r.err())
}

fn better(a: &[u32], b: &[u32]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Smaller tapes that still fail, until there are none or the time is up.
pub fn shrink(f: Prop, tape: Vec<u32>, limit: Duration) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut best = tape;
    let mut round = |best: &mut Vec<u32>, cand: Vec<u32>| -> bool {
        if t0.elapsed() > limit || !better(&cand, best) {
            return false;
        }
        tries += 1;
        let (used, bad) = attempt(f, &cand);
        if bad.is_some() && better(&used, best) {
            *best = used;
            return true;
        }
        false
    };
    let start = best.clone();
    let (used, _) = attempt(f, &start);
    if better(&used, &best) {
        best = used;
    }
    loop {
        let before = best.clone();
        // take pieces out
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                if !round(&mut best, c) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // pieces of zeros
        let mut size = 8;
        while size > 0 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c[i..(i + size).min(best.len())].fill(0);
                round(&mut best, c);
                i += size;
            }
            size /= 2;
        }
        // smaller numbers
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0, best[i]);
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if round(&mut best, c) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                round(&mut best, c);
            }
            // one less here, one piece less behind
            if i < best.len() && best[i] > 0 {
                for n in 1..4 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    let end = (i + 1 + n).min(c.len());
                    c.drain(i + 1..end);
                    if round(&mut best, c) || i >= best.len() || best[i] == 0 {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > limit {
            return (best, tries);
        }
    }
}
