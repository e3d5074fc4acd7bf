//! The reference: a small interpreter of grammars over the documented meaning.
//! It knows nothing about how the library is written.

use crate::ast::*;
use crate::env::{Ev, Fault, K, PF};
use crate::run::Mode;
use crate::tape::mix;
use crate::value::V;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    /// fails, with whatever error
    Any,
    /// fails with this very error
    Uid(usize),
}

pub type R<T> = Result<T, E>;

/// span start, span length, position afterwards
pub type Sp = (usize, usize, usize);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Skip {
    No,
    /// ascii white space, by the library's own pattern
    Ws,
    /// the same by a callback
    Cb,
    /// Unicode white space, by the library's own pattern
    Uni,
    /// ascii white space and comments, by a pattern made of the library's combinators
    Com,
}

pub struct Model<'m> {
    pub src: &'m [u8],
    pub text: bool,
    pub skip: Skip,
    pub pf: &'m [PF],
    pub root: &'m Node,
    /// every callback made, in order
    pub log: Vec<Ev>,
    pub steps: u64,
    pub over: bool,
    pub depth: u32,
    pub max_depth: u32,
    /// every node but this one is asked of the real library
    #[allow(clippy::type_complexity)]
    pub hybrid: Option<(u32, &'m dyn Fn(&Node, usize, Mode) -> Result<(Option<V>, usize, usize, usize), E>)>,
}

/// White space: all that Unicode knows, or the ASCII part.
pub fn blank(code: u32, uni: bool) -> bool {
    char::from_u32(code).is_some_and(|c| if uni { c.is_whitespace() } else { c.is_ascii_whitespace() })
}

/// How long the comment at the start of the text is: from "--" up to the end of the line,
/// or from "[[" to "]]" with no bracket inside.
pub fn comment(s: &[u8]) -> usize {
    if s.starts_with(b"--") {
        return s.iter().position(|b| *b == b'\n').unwrap_or(s.len());
    }
    if s.starts_with(b"[[") {
        let e = 2 + s[2..].iter().position(|b| *b == b']').unwrap_or(s.len() - 2);
        return if s[e..].starts_with(b"]]") { e + 2 } else { 0 };
    }
    0
}

/// The text without what a context skips.
pub fn bare(s: &str, skip: Skip) -> String {
    let mut out = String::new();
    let mut q = 0;
    while let Some(c) = s[q..].chars().next() {
        let n = if skip == Skip::Com { comment(&s.as_bytes()[q..]) } else { 0 };
        if n > 0 {
            q += n;
            continue;
        }
        if !blank(c as u32, skip == Skip::Uni) {
            out.push(c);
        }
        q += c.len_utf8();
    }
    out
}

pub const STEP_CAP: u64 = 20_000;

pub fn text_hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h) & 0xffff_ffff
}

pub fn span_key(b: usize, l: usize) -> u64 {
    ((b as u64) << 20) | l as u64
}

fn add(a: (usize, usize), b: (usize, usize)) -> (usize, usize) {
    (a.0, b.0 + b.1 - a.0)
}

impl<'m> Model<'m> {
    pub fn new(src: &'m [u8], text: bool, skip: Skip, pf: &'m [PF], root: &'m Node) -> Self {
        Model { src, text, skip, pf, root, log: vec![], steps: 0, over: false, depth: 0, max_depth: 0, hybrid: None }
    }

    fn fault(&mut self, k: K, site: u32, key: u64) -> Option<(Fault, usize)> {
        self.log.push(Ev { k, site, key });
        self.pf.iter().find(|p| p.k == k && p.site == site && p.key == key).map(|p| (p.f, p.uid))
    }

    fn cb(&mut self, k: K, site: u32, key: u64) -> R<()> {
        match self.fault(k, site, key) {
            Some((Fault::Err, u)) => Err(E::Uid(u)),
            _ => Ok(()),
        }
    }

    fn cb_bool(&mut self, k: K, site: u32, key: u64, v: bool) -> R<bool> {
        match self.fault(k, site, key) {
            Some((Fault::Err, u)) => Err(E::Uid(u)),
            Some((Fault::Flip, _)) => Ok(!v),
            _ => Ok(v),
        }
    }

    fn step(&mut self) -> R<()> {
        self.steps += 1;
        let more = if self.src.len() > 20_000 { 6 * self.src.len() as u64 } else { 0 };
        if self.steps > STEP_CAP + more || self.depth > 220 {
            self.over = true;
            return Err(E::Any);
        }
        Ok(())
    }

    pub fn boundary(&self, p: usize) -> bool {
        !self.text || p == self.src.len() || (p < self.src.len() && self.src[p] & 0xC0 != 0x80)
    }

    /// the element at `p`, and where the next one starts
    pub fn item(&self, p: usize) -> Option<(u32, usize)> {
        let b = *self.src.get(p)?;
        if !self.text || b < 0x80 {
            return Some((b as u32, p + 1));
        }
        let s = unsafe { std::str::from_utf8_unchecked(&self.src[p..]) };
        let c = s.chars().next()?;
        Some((c as u32, p + c.len_utf8()))
    }

    fn skip(&mut self, p: usize) -> R<usize> {
        if self.skip == Skip::No {
            return Ok(p);
        }
        let mut q = p;
        if self.boundary(p) {
            loop {
                while let Some((_, e)) = self.item(q).filter(|x| blank(x.0, self.skip == Skip::Uni)) {
                    q = e;
                }
                let n = if self.skip == Skip::Com { comment(&self.src[q..]) } else { 0 };
                if n == 0 {
                    break;
                }
                q += n;
            }
        }
        if self.skip == Skip::Cb {
            self.cb(K::Skip, 0, q as u64)?;
        }
        Ok(q)
    }

    /// matches any white space: where it begins and ends
    fn white(&mut self, uni: bool, p: usize) -> R<(usize, usize)> {
        self.step()?;
        let b = self.skip(p)?;
        let mut e = b;
        if self.boundary(b) {
            while let Some((_, n)) = self.item(e).filter(|x| blank(x.0, uni)) {
                e = n;
            }
        }
        Ok((b, e))
    }

    #[allow(clippy::type_complexity)]
    fn ask(&mut self, n: &Node, p: usize, mode: Mode) -> Option<R<(Option<V>, usize, usize, usize)>> {
        match self.hybrid {
            Some((id, f)) if id != n.id => Some(f(n, p, mode)),
            _ => None,
        }
    }

    /// A match attempt through the context.
    pub fn mat(&mut self, n: &'m Node, p: usize) -> R<Sp> {
        self.step()?;
        if let Some(r) = self.ask(n, p, Mode::Mat) {
            return r.map(|(_, b, l, e)| (b, l, e));
        }
        let q = self.skip(p)?;
        self.rx(n, q)
    }

    fn accepts(&mut self, id: u32, u: &U, code: u32) -> bool {
        let text = self.text;
        u.accepts(code, text, &mut |c| {
            matches!(self.fault(K::Unit, id, c as u64), Some((Fault::Flip, _)))
        })
    }

    fn cond(&mut self, id: u32, c: &'m Cond, p: usize, code: u32) -> R<bool> {
        match c {
            Cond::None => Ok(true),
            Cond::Clo(s) => self.cb_bool(K::Cond, id, p as u64, in_set(*s, code)),
            Cond::Rx(r) => Ok(self.mat(r, p).is_ok()),
        }
    }

    fn unit(&mut self, id: u32, u: &'m U, f: &'m Form, c: &'m Cond, p: usize) -> R<Sp> {
        let (min, max) = match f {
            Form::Once => (1, Some(1)),
            Form::Opt => (0, Some(1)),
            Form::Many0 => (0, None),
            Form::Many1 => (1, None),
            Form::Between(i) => (MN[*i as usize].0, Some(MN[*i as usize].1)),
            Form::AtLeast(n) => (*n as usize, None),
            Form::Times(r) => (r.min(), r.max()),
            Form::Then(_) => (2, Some(2)),
        };
        if !self.boundary(p) {
            return if matches!(f, Form::Opt | Form::Many0) { Ok((p, 0, p)) } else { Err(E::Any) };
        }
        // with too little input left the callbacks need not be asked at all
        let short = matches!(f, Form::Between(_) | Form::AtLeast(_) | Form::Times(_) | Form::Then(_))
            && self.src.len() - p < 3 * min;
        if let Form::Then(r) = f {
            let Some((c1, q)) = self.item(p) else { return Err(E::Any) };
            let Some((c2, e)) = self.item(q) else { return Err(E::Any) };
            let ok = (|| {
                Ok(self.accepts(id, u, c1) && self.cond(id, c, p, c1)? && self.accepts(id, r, c2) && self.cond(id, c, q, c2)?)
            })()
            .map_err(|e| if short { E::Any } else { e })?;
            return if ok { Ok((p, e - p, e)) } else { Err(E::Any) };
        }
        let mut n = 0;
        let mut q = p;
        while max.is_none_or(|m| n < m) {
            self.step()?;
            let Some((code, next)) = self.item(q) else { break };
            if !self.accepts(id, u, code) {
                break;
            }
            if !self.cond(id, c, q, code).map_err(|e| if short { E::Any } else { e })? {
                break;
            }
            n += 1;
            q = next;
        }
        if n >= min { Ok((p, q - p, q)) } else { Err(E::Any) }
    }

    fn find(&self, id: u32) -> &'m Node {
        let mut r = None;
        self.root.walk(&mut |n| {
            if n.id == id {
                r = Some(n)
            }
        });
        r.expect("no such rule")
    }

    /// The pattern itself, as a pattern, at exactly `p`.
    pub fn rx(&mut self, n: &'m Node, p: usize) -> R<Sp> {
        self.step()?;
        if let Some(r) = self.ask(n, p, Mode::Rx) {
            return r.map(|(_, b, l, e)| (b, l, e));
        }
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        let r = self.rx_(n, p);
        self.depth -= 1;
        r
    }

    fn rx_(&mut self, n: &'m Node, p: usize) -> R<Sp> {
        let id = n.id;
        let len = self.src.len();
        macro_rules! seq {
            ($x:expr $(, $y:expr)*) => {{
                let (b, l, e) = self.mat($x, p)?;
                #[allow(unused_mut)]
                let (mut t, mut q) = ((b, l), e);
                $( let (b, l, e) = self.mat($y, q)?; t = add(t, (b, l)); q = e; )*
                Ok((t.0, t.1, q))
            }};
        }
        match &n.k {
            N::Unit { u, f, cond } => self.unit(id, u, f, cond, p),
            N::Lit { i, .. } => {
                let s = LITS[*i as usize].as_bytes();
                if self.boundary(p) && self.src[p..].starts_with(s) { Ok((p, s.len(), p + s.len())) } else { Err(E::Any) }
            }
            N::Consume(k) => {
                let k = *k as usize;
                if len - p >= k { Ok((p, k, p + k)) } else { Err(E::Any) }
            }
            N::ConsumeAll => Ok((p, len - p, len)),
            N::Start => if p == 0 { Ok((p, 0, p)) } else { Err(E::Any) },
            N::End => if p == len { Ok((p, 0, p)) } else { Err(E::Any) },
            N::Empty => Ok((p, 0, p)),
            N::Fail => Err(E::Any),
            N::Clo { set, min, max, .. } => {
                let mut q = p;
                let mut k = 0;
                if self.boundary(p) {
                    while k < *max {
                        match self.item(q) {
                            Some((c, e)) if in_set(*set, c) => q = e,
                            _ => break,
                        }
                        k += 1;
                    }
                }
                self.cb(K::Clo, id, p as u64)?;
                if k < *min { Err(E::Uid(100 + id as usize)) } else { Ok((p, q - p, q)) }
            }
            N::Assert(v, _, a) => if self.mat(a, p).is_ok() == *v { Ok((p, 0, p)) } else { Err(E::Any) },
            N::RxWrap(_, a) | N::Hold(_, a) | N::Rec(a) => self.rx(a, p),
            N::Ref(r) => {
                let Node { k: N::Rec(a), .. } = self.find(*r) else { unreachable!() };
                self.rx(a, p)
            }
            N::Pat(a) | N::Map(a, _) | N::Sel(_, a) => self.mat(a, p),
            N::Around(w, a, b, c) => {
                let q = if *w == 1 { p } else { self.rx(b, p)?.2 };
                let (b, l, e) = self.rx(a, q)?;
                Ok((b, l, if *w == 0 { e } else { self.rx(c, e)?.2 }))
            }
            N::RxBuilder(a, v) => {
                let (b, l, e) = self.mat(a, p)?;
                let key = span_key(b, l);
                self.cb(K::Builder, id, key)?;
                self.mat(&v[key as usize % v.len()], e)
            }
            N::Ws { lead: false, uni, a } => {
                let (b, l, e) = self.mat(a, p)?;
                let (wb, we) = self.white(*uni, e)?;
                let t = add((b, l), (wb, we - wb));
                Ok((t.0, t.1, we))
            }
            N::Ws { lead: true, uni, a } => {
                let (wb, we) = self.white(*uni, p)?;
                let (b, l, e) = self.mat(a, we)?;
                let t = add((wb, we - wb), (b, l));
                Ok((t.0, t.1, e))
            }
            N::Then(a, b) => seq!(a, b),
            N::Prefix(a, pre) => seq!(pre, a),
            N::Suffix(a, s) => seq!(a, s),
            N::Enclose(a, o, c) => seq!(o, a, c),
            N::SepOnce(a, s, b) => {
                let (b, l, e) = seq!(a, s, b)?;
                Ok((p, b + l - p, e))
            }
            N::IfThen(a, t, r) => {
                let (b, l, mut q) = self.mat(a, p)?;
                let mut s = (b, l);
                if let Ok((b, l, e)) = self.mat(t, q) {
                    s = add(s, (b, l));
                    q = e;
                    let (b, l, e) = self.mat(r, q)?;
                    s = add(s, (b, l));
                    q = e;
                }
                Ok((s.0, s.1, q))
            }
            N::Sep { item, sep, skip, min } | N::SepCollect { item, sep, skip, min, .. } => {
                self.sep_rx(item, sep, *skip, *min as usize, None, p)
            }
            N::Sep2 { item, sep, skip, mn } => {
                let (m, n) = MN[*mn as usize];
                self.sep_rx(item, sep, *skip, m, Some(n), p)
            }
            N::Repeat(a, r) => self.rep_rx(a, r.min(), r.max(), p),
            N::Repeat2(a, i) => self.rep_rx(a, MN[*i as usize].0, Some(MN[*i as usize].1), p),
            N::Collect { item, min, .. } => self.rep_rx(item, *min as usize, None, p),
            N::Or(a, b) => self.mat(a, p).or_else(|_| self.mat(b, p)).map_err(|_| E::Any),
            N::Longest(a, b) => {
                let (x, y) = (self.mat(a, p), self.mat(b, p));
                match (x, y) {
                    (Ok(x), Ok(y)) => Ok(if x.2 >= y.2 { x } else { y }),
                    (Ok(x), _) | (_, Ok(x)) => Ok(x),
                    _ => Err(E::Any),
                }
            }
            N::Alts(_, ltm, v) | N::Pairs(_, ltm, v) => {
                let mut best: Option<Sp> = None;
                for x in v {
                    if let Ok(s) = self.mat(x, p) {
                        if best.is_none_or(|b| s.2 > b.2) {
                            best = Some(s);
                        }
                        if !*ltm {
                            break;
                        }
                    }
                }
                best.ok_or(E::Any)
            }
            N::Opt(a) => Ok(self.mat(a, p).unwrap_or((p, 0, p))),
            N::Branch { set, yes, no, .. } => {
                if self.test(id, *set, p)? { self.mat(yes, p) } else { self.mat(no, p) }
            }
            N::DynThen(..) | N::Func(_) => unreachable!("construct only"),
        }
    }

    fn test(&mut self, id: u32, set: u32, p: usize) -> R<bool> {
        let v = self.boundary(p) && self.item(p).is_some_and(|(c, _)| in_set(set, c));
        self.cb_bool(K::Test, id, p as u64, v)
    }

    fn rep_rx(&mut self, a: &'m Node, min: usize, max: Option<usize>, p: usize) -> R<Sp> {
        let (mut n, mut q, mut t) = (0, p, (p, 0));
        while max.is_none_or(|m| n < m) {
            match self.mat(a, q) {
                Ok((b, l, e)) => {
                    t = add(t, (b, l));
                    q = e;
                    n += 1;
                }
                Err(_) => break,
            }
        }
        if n >= min { Ok((t.0, t.1, q)) } else { Err(E::Any) }
    }

    fn sep_rx(&mut self, a: &'m Node, s: &'m Node, skip: bool, min: usize, max: Option<usize>, p: usize) -> R<Sp> {
        let (mut n, mut q, mut t) = (0, p, (p, 0));
        while max.is_none_or(|m| n < m) {
            let Ok((b, l, e)) = self.mat(a, q) else { break };
            match self.mat(s, e) {
                Ok((sb, sl, se)) => {
                    t = add(add(t, (b, l)), (sb, sl));
                    q = se;
                    n += 1;
                }
                Err(_) => {
                    if skip {
                        t = add(t, (b, l));
                        q = e;
                        n += 1;
                    }
                    break;
                }
            }
        }
        if n >= min { Ok((t.0, t.1, q)) } else { Err(E::Any) }
    }

    fn leaf(&mut self, s: Sp) -> R<(V, usize)> {
        let (b, l, e) = s;
        self.cb(K::Handler, 0, span_key(b, l))?;
        Ok((V::Tok { b: b as u32, l: l as u32, text: text_hash(&self.src[b..b + l]), uid: 0 }, e))
    }

    /// Building a value at `p`.
    pub fn con(&mut self, n: &'m Node, p: usize) -> R<(V, usize)> {
        self.step()?;
        if let Some(r) = self.ask(n, p, Mode::Con) {
            return r.map(|(v, _, _, e)| (v.expect("a value"), e));
        }
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        let r = self.con_(n, p);
        self.depth -= 1;
        r
    }

    fn con_(&mut self, n: &'m Node, p: usize) -> R<(V, usize)> {
        let id = n.id;
        match &n.k {
            N::Unit { .. } | N::Lit { .. } | N::Consume(_) | N::ConsumeAll | N::Start | N::End | N::Empty | N::Fail
            | N::Clo { .. } | N::Assert(..) | N::RxWrap(..) | N::RxBuilder(..) | N::Around(..) => {
                let s = self.mat(n, p)?;
                self.leaf(s)
            }
            N::Pat(a) => {
                let s = self.mat(a, p)?;
                self.leaf(s)
            }
            N::Hold(_, a) | N::Rec(a) | N::Func(a) => self.con(a, p),
            N::Ref(r) => {
                let Node { k: N::Rec(a), .. } = self.find(*r) else { unreachable!() };
                self.con(a, p)
            }
            N::Map(a, _) => {
                let (v, e) = self.con(a, p)?;
                let N::Map(_, kind) = n.k else { unreachable!() };
                let r = self.cb(if kind == 0 { K::Collect } else { K::Mapper }, id, v.hash());
                if kind == 2 && r.is_err() {
                    return Ok((V::Tag(id, Box::new(V::opt(None))), e));
                }
                r?;
                Ok((V::Map(id, Box::new(v)), e))
            }
            N::Ws { lead: false, uni, a } => {
                let (v, e) = self.con(a, p)?;
                Ok((v, self.white(*uni, e)?.1))
            }
            N::Ws { lead: true, uni, a } => {
                let (_, e) = self.white(*uni, p)?;
                self.con(a, e)
            }
            N::Then(a, b) => {
                let (x, q) = self.con(a, p)?;
                let (y, q) = self.con(b, q)?;
                Ok((V::pair(x, y), q))
            }
            N::Prefix(a, pre) => {
                let (_, _, q) = self.mat(pre, p)?;
                self.con(a, q)
            }
            N::Suffix(a, s) => {
                let (x, q) = self.con(a, p)?;
                let (_, _, q) = self.mat(s, q)?;
                Ok((x, q))
            }
            N::Enclose(a, o, c) => {
                let (_, _, q) = self.mat(o, p)?;
                let (x, q) = self.con(a, q)?;
                let (_, _, q) = self.mat(c, q)?;
                Ok((x, q))
            }
            N::SepOnce(a, s, b) => {
                let (x, q) = self.con(a, p)?;
                let (_, _, q) = self.mat(s, q)?;
                let (y, q) = self.con(b, q)?;
                Ok((V::pair(x, y), q))
            }
            N::IfThen(a, t, r) => {
                let (x, q) = self.con(a, p)?;
                match self.mat(t, q) {
                    Ok((_, _, q)) => {
                        let (y, q) = self.con(r, q)?;
                        Ok((V::pair(x, V::opt(Some(y))), q))
                    }
                    Err(_) => Ok((V::pair(x, V::opt(None)), q)),
                }
            }
            N::DynThen(a, v) => {
                let (x, q) = self.con(a, p)?;
                let key = x.hash();
                self.cb(K::Builder, id, key)?;
                let (y, q) = self.con(&v[key as usize % v.len()], q)?;
                Ok((V::pair(x, y), q))
            }
            N::Sel(w, a) => {
                let (v, e) = self.con(a, p)?;
                let V::Pair(x, y) = v else { unreachable!() };
                match w {
                    0 => Ok((*x, e)),
                    1 => Ok((*y, e)),
                    _ => {
                        let eq = match (&a.k, &*y) {
                            (N::IfThen(..), V::Opt(Some(y))) => *x == **y,
                            (N::IfThen(..), _) => false,
                            _ => x == y,
                        };
                        if eq == (*w == 2) { Ok((V::Pair(x, y), e)) } else { Err(E::Any) }
                    }
                }
            }
            N::Sep { item, sep, skip, min } => self.sep_con(item, sep, *skip, *min as usize, None, p).map(|(v, e)| (V::List(v), e)),
            N::SepCollect { item, sep, skip, min, take } => {
                let t = taken(*take);
                self.sep_con(item, sep, *skip, *min as usize, t, p).map(|(v, e)| (V::List(v), e))
            }
            N::Sep2 { item, sep, skip, mn } => {
                let (m, n) = MN[*mn as usize];
                self.sep_con(item, sep, *skip, m, Some(n), p).map(|(v, e)| (arr(v, n), e))
            }
            N::Repeat(a, r) => self.rep_con(a, r.min(), r.max(), p).map(|(v, e)| (V::List(v), e)),
            N::Repeat2(a, i) => {
                let (m, n) = MN[*i as usize];
                self.rep_con(a, m, Some(n), p).map(|(v, e)| (arr(v, n), e))
            }
            N::Collect { item, min, take } => {
                let t = taken(*take);
                self.rep_con(item, *min as usize, t, p).map(|(v, e)| (V::List(v), e))
            }
            N::Or(a, b) => self.con(a, p).or_else(|_| self.con(b, p)).map_err(|_| E::Any),
            N::Longest(a, b) => {
                let (x, y) = (self.con(a, p), self.con(b, p));
                match (x, y) {
                    (Ok(x), Ok(y)) => Ok(if x.1 >= y.1 { x } else { y }),
                    (Ok(x), _) | (_, Ok(x)) => Ok(x),
                    _ => Err(E::Any),
                }
            }
            N::Alts(_, ltm, v) | N::Pairs(_, ltm, v) => {
                let mut best: Option<(V, usize, usize)> = None;
                for (i, x) in v.iter().enumerate() {
                    if let Ok((v, e)) = self.con(x, p) {
                        if best.as_ref().is_none_or(|b| e > b.1) {
                            best = Some((v, e, i));
                        }
                        if !*ltm {
                            break;
                        }
                    }
                }
                let (v, e, i) = best.ok_or(E::Any)?;
                Ok((if matches!(n.k, N::Pairs(..)) { V::Tag(i as u32, Box::new(v)) } else { v }, e))
            }
            N::Opt(a) => match self.con(a, p) {
                Ok((v, e)) => Ok((V::opt(Some(v)), e)),
                Err(_) => Ok((V::opt(None), p)),
            },
            N::Branch { set, yes, no, .. } => {
                if self.test(id, *set, p)? { self.con(yes, p) } else { self.con(no, p) }
            }
        }
    }

    fn rep_con(&mut self, a: &'m Node, min: usize, max: Option<usize>, p: usize) -> R<(Vec<V>, usize)> {
        let (mut v, mut q) = (vec![], p);
        while max.is_none_or(|m| v.len() < m) {
            match self.con(a, q) {
                Ok((x, e)) => {
                    v.push(x);
                    q = e;
                }
                Err(_) => break,
            }
        }
        if v.len() >= min { Ok((v, q)) } else { Err(E::Any) }
    }

    fn sep_con(&mut self, a: &'m Node, s: &'m Node, skip: bool, min: usize, max: Option<usize>, p: usize) -> R<(Vec<V>, usize)> {
        let (mut v, mut q) = (vec![], p);
        while max.is_none_or(|m| v.len() < m) {
            let Ok((x, e)) = self.con(a, q) else { break };
            match self.mat(s, e) {
                Ok((_, _, se)) => {
                    v.push(x);
                    q = se;
                }
                Err(_) => {
                    if skip {
                        v.push(x);
                        q = e;
                    }
                    break;
                }
            }
        }
        if v.len() >= min { Ok((v, q)) } else { Err(E::Any) }
    }
}

fn taken(take: u8) -> Option<usize> {
    match take {
        0 | 101 => None,
        100 => Some(0),
        n => Some(n as usize),
    }
}

fn arr(v: Vec<V>, n: usize) -> V {
    let mut r: Vec<V> = v.into_iter().map(|x| V::opt(Some(x))).collect();
    while r.len() < n {
        r.push(V::opt(None));
    }
    V::List(r)
}
