//! The ways a context offers to run a pattern.

use crate::build::P;
use crate::ctxs::*;
use crate::env::{self, Bad, K};
use crate::model::{Skip, span_key, text_hash};
use crate::run::Mk;
use crate::value::V;
use neure::err::Error;
use neure::prelude::*;
use neure::regex::Regex;

pub type Br<'a, C> = Box<dyn Regex<C> + Send + Sync + 'a>;

/// Only the pattern side of a parser.
pub struct Only<'a, C>(pub P<'a, C>);

impl<C> Regex<C> for Only<'_, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}

pub fn only<'a, C: 'a>(p: &P<'a, C>) -> Br<'a, C> {
    Box::new(Only(p.clone()))
}

pub const FORMS: [&str; 7] = ["ctor_with", "ctor_span", "ctor", "map_handler", "map_with", "map_span", "map"];
pub const SHAPES: [&str; 6] = ["a", "a.then(b)", "a.or(b)", "a.repeat(0..=2)", "a.opt()", "a.sep(b)"];
pub const POLICIES: [&str; 3] = ["try_mat_before", "try_mat_after", "try_mat_policy"];

fn tok(src: &[u8], b: usize, l: usize) -> V {
    if b + l > src.len() {
        env::bad(Bad::Span, || format!("the span {b}..{} is outside the input", b + l));
        return V::Tok { b: b as u32, l: l as u32, text: 0, uid: 0 };
    }
    V::Tok { b: b as u32, l: l as u32, text: text_hash(&src[b..b + l]), uid: 0 }
}

fn place(src: &[u8], part: &[u8]) -> V {
    let b = (part.as_ptr() as usize).wrapping_sub(src.as_ptr() as usize);
    if b > src.len() {
        env::bad(Bad::Span, || "a result is not a part of the input".into());
        return V::List(vec![]);
    }
    tok(src, b, part.len())
}

pub trait AsB {
    fn as_b(&self) -> &[u8];
}
impl AsB for &str {
    fn as_b(&self) -> &[u8] {
        self.as_bytes()
    }
}
impl AsB for &[u8] {
    fn as_b(&self) -> &[u8] {
        self
    }
}

pub trait Forms<'a>: Sized {
    /// runs a parser made of the patterns through one of FORMS
    fn entry(&mut self, form: u8, shape: u8, a: Br<'a, Self>, b: Br<'a, Self>, id: u32) -> Result<V, Error>;
    /// reads a store of captures through the context itself
    fn read_store<St: crate::hist::Store>(
        &self, _st: &St, _src: &str, _id: usize, _k: usize, _w: &[Option<Span>],
    ) -> Option<Result<(), String>> {
        None
    }
}

macro_rules! shapes {
    ($ctx:expr, $c:ty, $shape:expr, $a:expr, $b:expr, $call:ident, $conv:expr $(, $h:expr)?) => {{
        let conv = $conv;
        match $shape {
            0 => $ctx.$call(&$a $(, $h)?).map(conv),
            1 => $ctx.$call(&CtorOps::<$c>::then($a, $b) $(, $h)?).map(|(x, y)| V::pair(conv(x), conv(y))),
            2 => $ctx.$call(&CtorOps::<$c>::or($a, $b) $(, $h)?).map(conv),
            3 => $ctx.$call(&CtorOps::<$c>::repeat($a, 0..=2) $(, $h)?).map(|v: Vec<_>| V::List(v.into_iter().map(conv).collect())),
            4 => $ctx.$call(&CtorOps::<$c>::opt($a) $(, $h)?).map(|v: Option<_>| V::opt(v.map(conv))),
            _ => $ctx.$call(&CtorOps::<$c>::sep($a, $b) $(, $h)?).map(|v: Vec<_>| V::List(v.into_iter().map(conv).collect())),
        }
    }};
}

macro_rules! forms {
    ($c:ty, $orig:ty $(; $read:expr)?) => {
        impl<'a> Forms<'a> for $c {
            $(fn read_store<St: crate::hist::Store>(
                &self, st: &St, src: &str, id: usize, k: usize, w: &[Option<Span>],
            ) -> Option<Result<(), String>> {
                Some(crate::hist::read::<St, $c>(st, self, src, id, k, w, $read))
            })?
            fn entry(&mut self, form: u8, shape: u8, a: Br<'a, Self>, b: Br<'a, Self>, id: u32) -> Result<V, Error> {
                let src: &'a [u8] = Lang::bytes(self);
                let with = |_: &$c, s: &Span| -> Result<(usize, usize), Error> {
                    env::cb_unit(K::Handler, 0, span_key(s.beg, s.len))?;
                    Ok((s.beg, s.len))
                };
                let mapped = |v: V| -> Result<V, Error> {
                    env::cb_unit(K::Mapper, id, v.hash())?;
                    Ok(V::Map(id, Box::new(v)))
                };
                match form {
                    0 => shapes!(self, $c, shape, a, b, ctor_with, |x: (usize, usize)| tok(src, x.0, x.1), with),
                    1 => shapes!(self, $c, shape, a, b, ctor_span, |x: Span| tok(src, x.beg, x.len)),
                    2 => shapes!(self, $c, shape, a, b, ctor, |x: $orig| place(src, x.as_b())),
                    3 => self.map_handler(&a, SimH),
                    4 => self.map_with(&a, with).map(|x| tok(src, x.0, x.1)),
                    5 => self.map_span(&a, |s: Span| mapped(tok(src, s.beg, s.len))),
                    _ => self.map(&a, |s: $orig| mapped(place(src, s.as_b()))),
                }
            }
        }
    };
}

forms!(CharsCtx<'a>, &'a str; |x: &str| x.as_bytes());
forms!(BytesCtx<'a>, &'a [u8]; |x: &[u8]| x);
forms!(Pol<'a>, &'a str; |x: &str| x.as_bytes());
forms!(PolB<'a>, &'a [u8]; |x: &[u8]| x);
forms!(WsCtx<'a>, &'a str; |x: &str| x.as_bytes());
forms!(UniCtx<'a>, &'a str; |x: &str| x.as_bytes());
forms!(WsB<'a>, &'a [u8]; |x: &[u8]| x);
forms!(PolS<'a>, &'a str);
forms!(SimCtx<'a>, &'a str);

#[allow(dead_code)]
fn assert_mk<'a, C: Mk<'a>>(_: Skip) {}
