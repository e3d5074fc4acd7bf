//! Grammars: what they are, how they are generated and how an input is derived from one.

use crate::tape::Tape;

pub const ALPHA: [char; 21] = [
    'a', 'b', 'c', 'A', '1', '2', '0', ',', ';', '(', ')', '[', ']', '-', ' ', '\t', 'é', '中', '\n', '😀', '\u{3000}',
];
/// As many bits as ALPHA has characters.
pub const SETS: u32 = 1 << ALPHA.len();

pub const LITS: [&str; 19] = [
    "a", "b", ",", "(", ")", "ab", "1", "abc", ";", "[", "]", "-", "é", "中a", "12", "aé", "a😀", "abcabcab", "ab中c\n",
];

/// Single character units, on elements of either kind of input.
#[derive(Clone, Debug, PartialEq)]
pub enum U {
    Ch(char),
    Range(char, char),
    RangeEx(char, char),
    Alpha,
    Digit,
    Alnum,
    Ws,
    /// white space of any kind (ASCII on bytes)
    Blank,
    Punct,
    Wild,
    Never,
    /// a user closure over a set of ALPHA, as a callback
    Pred(u32),
    /// an array of elements
    Arr(char, char),
    /// ranges in one of BOUNDS
    Bounds(u8, char, char),
    Eq(char),
    Not(Box<U>),
    Or(Box<U>, Box<U>),
    And(Box<U>, Box<U>),
    /// inside of one of UHOLD
    Held(u8, Box<U>),
}

/// The last three are made once and kept, the others anew for each use.
pub const UHOLD: [&str; 13] = [
    "arc", "rc", "refcell", "box dyn", "cell", "mutex", "arc dyn", "rc dyn", "list", "slice", "kept refcell", "kept cell", "kept mutex",
];

pub const BOUNDS: [&str; 8] =
    ["from", "up to", "up to and with", "all", "range()", "between, without either", "of references", "by bounds"];

pub fn in_set(set: u32, code: u32) -> bool {
    ALPHA.iter().enumerate().any(|(i, c)| set >> i & 1 == 1 && *c as u32 == code)
}

impl U {
    /// The reference meaning; `flip` says whether the closure's answer is flipped.
    pub fn accepts(&self, code: u32, text: bool, flip: &mut dyn FnMut(u32) -> bool) -> bool {
        let ascii = code < 128;
        let c = if ascii { code as u8 as char } else { '\u{1}' };
        match self {
            U::Ch(x) | U::Eq(x) => code == *x as u32,
            U::Range(a, b) => (*a as u32..=*b as u32).contains(&code),
            U::RangeEx(a, b) => (*a as u32..*b as u32).contains(&code),
            U::Alpha => ascii && c.is_ascii_alphabetic(),
            U::Digit => ascii && c.is_ascii_digit(),
            U::Alnum => ascii && c.is_ascii_alphanumeric(),
            U::Ws => ascii && c.is_ascii_whitespace(),
            U::Blank if text => crate::model::blank(code, true),
            U::Blank => ascii && c.is_ascii_whitespace(),
            U::Punct => ascii && c.is_ascii_punctuation(),
            // wild is for text only, `always` is used on bytes
            U::Wild => !text || code != '\n' as u32,
            U::Never => false,
            U::Pred(set) => in_set(*set, code) ^ flip(code),
            U::Arr(a, b) => code == *a as u32 || code == *b as u32,
            U::Bounds(k, a, b) => {
                let (a, b) = (*a as u32, *b as u32);
                match k {
                    0 => a <= code,
                    1 => code < b,
                    2 => code <= b,
                    3 => true,
                    5 => a < code && code < b,
                    6 => a <= code && code < b,
                    _ => a <= code && code <= b,
                }
            }
            U::Held(_, u) => u.accepts(code, text, flip),
            U::Not(u) => !u.accepts(code, text, flip),
            U::Or(l, r) => l.accepts(code, text, flip) || r.accepts(code, text, flip),
            U::And(l, r) => l.accepts(code, text, flip) && r.accepts(code, text, flip),
        }
    }

    pub fn show(&self) -> String {
        match self {
            U::Ch(c) => format!("{c:?}"),
            U::Eq(c) => format!("equal({c:?})"),
            U::Range(a, b) => format!("{a:?}..={b:?}"),
            U::RangeEx(a, b) => format!("{a:?}..{b:?}"),
            U::Pred(s) => format!("|c| {:?}.contains(c)", (0..ALPHA.len()).filter(|i| s >> i & 1 == 1).map(|i| ALPHA[i]).collect::<String>()),
            U::Arr(a, b) => format!("[{a:?}, {b:?}]"),
            U::Bounds(k, a, b) => format!("{} {a:?} {b:?}", BOUNDS[*k as usize]),
            U::Held(k, u) => format!("{} of {}", UHOLD[*k as usize], u.show()),
            U::Not(u) => format!("not({})", u.show()),
            U::Or(l, r) => format!("({} or {})", l.show(), r.show()),
            U::And(l, r) => format!("({} and {})", l.show(), r.show()),
            x => format!("{x:?}").to_lowercase(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rng {
    Exact(usize),
    Incl(usize, usize),
    Excl(usize, usize),
    From(usize),
    ToIncl(usize),
    To(usize),
    Full,
    /// the lower bound excluded
    ExIncl(usize, usize),
    ExExcl(usize, usize),
    ExFrom(usize),
}

impl Rng {
    /// (1, 0) when nothing lies in it.
    fn bounds(&self) -> (usize, Option<usize>) {
        let (min, end) = match self {
            Rng::Exact(n) => (*n, n.checked_add(1)),
            Rng::Incl(a, b) => (*a, b.checked_add(1)),
            Rng::Excl(a, b) => (*a, Some(*b)),
            Rng::From(a) => (*a, None),
            Rng::ToIncl(b) => (0, b.checked_add(1)),
            Rng::To(b) => (0, Some(*b)),
            Rng::Full => (0, None),
            Rng::ExIncl(a, b) => (*a + 1, b.checked_add(1)),
            Rng::ExExcl(a, b) => (*a + 1, Some(*b)),
            Rng::ExFrom(a) => (*a + 1, None),
        };
        match end {
            Some(e) if e <= min => (1, Some(0)),
            e => (min, e.map(|e| e - 1)),
        }
    }
    pub fn min(&self) -> usize {
        self.bounds().0
    }
    pub fn max(&self) -> Option<usize> {
        self.bounds().1
    }
    pub fn show(&self) -> String {
        match self {
            Rng::Exact(n) => format!("{n}"),
            Rng::Incl(a, b) => format!("{a}..={b}"),
            Rng::Excl(a, b) => format!("{a}..{b}"),
            Rng::From(a) => format!("{a}.."),
            Rng::ToIncl(b) => format!("..={b}"),
            Rng::To(b) => format!("..{b}"),
            Rng::Full => "..".into(),
            Rng::ExIncl(a, b) => format!("({a}, {b}]"),
            Rng::ExExcl(a, b) => format!("({a}, {b})"),
            Rng::ExFrom(a) => format!("({a}, ..)"),
        }
    }
}

/// Compile-time bounds that are instantiated.
pub const MN: [(usize, usize); 9] = [(0, 1), (0, 2), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (0, 9), (3, 20)];

#[derive(Clone, Debug, PartialEq)]
pub enum Form {
    Once,
    Opt,
    Many0,
    Many1,
    /// index into MN
    Between(u8),
    AtLeast(u8),
    Times(Rng),
    Then(U),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    None,
    /// a user closure: the element is in the set
    Clo(u32),
    /// a pattern that must match at the element
    Rx(Box<Node>),
}

/// How a parser is held.
pub const HOLD_PLAIN: [&str; 17] = [
    "into_box", "into_arc", "into_rc", "into_cell", "into_refcell", "into_mutex", "into_dyn", "into_dyn_arc",
    "into_dyn_rc", "as_dyn_ctor", "dyn_box_sync", "dyn_arc_sync", "option", "dyn_box_send", "dyn_arc_send",
    "dyn_rc_send", "in parts",
];
pub const RX_HOLD: [&str; 18] = [
    "into_ctor", "into_box_regex", "into_arc_regex", "into_rc_regex", "into_cell_regex", "into_refcell_regex",
    "into_mutex_regex", "into_dyn_regex", "into_dyn_arc_regex", "into_dyn_rc_regex", "as_ctor", "as_dyn_regex",
    "dyn_box_sync", "dyn_arc_sync", "dyn_box_send", "dyn_arc_send", "dyn_rc_send", "in parts",
];

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub id: u32,
    pub k: N,
}

type B = Box<Node>;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Unit { u: U, f: Form, cond: Cond },
    Lit { form: u8, i: u8 },
    Consume(u8),
    ConsumeAll,
    Start,
    End,
    Empty,
    Fail,
    Clo { set: u32, min: u8, max: u8, dirty: bool },
    Assert(bool, u8, B),
    RxWrap(u8, B),
    RxBuilder(B, Vec<Node>),
    Pat(B),
    Then(B, B),
    IfThen(B, B, B),
    Prefix(B, B),
    Suffix(B, B),
    Enclose(B, B, B),
    SepOnce(B, B, B),
    /// 0 = first, 1 = second, 2 = equal; the child is a pair
    Sel(u8, B),
    Sep { item: B, sep: B, skip: bool, min: u8 },
    Sep2 { item: B, sep: B, skip: bool, mn: u8 },
    SepCollect { item: B, sep: B, skip: bool, min: u8, take: u8 },
    Repeat(B, Rng),
    Repeat2(B, u8),
    Collect { item: B, min: u8, take: u8 },
    Or(B, B),
    Longest(B, B),
    /// 0 vector, 1 array, 2 slice
    Alts(u8, bool, Vec<Node>),
    Pairs(u8, bool, Vec<Node>),
    Opt(B),
    Branch { set: u32, yes: B, no: B, free: bool },
    DynThen(B, Vec<Node>),
    /// 0 map, 1 try_map, 2 try_map with a default
    Map(B, u8),
    /// skip_ws and the like: leading, all white space
    Ws { lead: bool, uni: bool, a: B },
    Hold(u8, B),
    /// a user's closure that matches with a part before (0), a part after (1), or both (2)
    Around(u8, B, B, B),
    /// a parser only usable for construction, made from a function
    Func(B),
    Rec(B),
    Ref(u32),
}


impl N {
    pub fn name(&self) -> &'static str {
        match self {
            N::Unit { f, .. } => match f {
                Form::Once => "once",
                Form::Opt => "opt_unit",
                Form::Many0 => "many0",
                Form::Many1 => "many1",
                Form::Between(_) | Form::AtLeast(_) => "between",
                Form::Times(_) => "times",
                Form::Then(_) => "unit_then",
            },
            N::Lit { .. } => "literal",
            N::Consume(_) => "consume",
            N::ConsumeAll => "consume_all",
            N::Start => "start",
            N::End => "end",
            N::Empty => "empty",
            N::Fail => "fail",
            N::Clo { .. } => "closure",
            N::Assert(..) => "assert",
            N::RxWrap(..) => "regex_holder",
            N::RxBuilder(..) => "regex_builder",
            N::Around(..) => "around",
            N::Pat(_) => "pat",
            N::Then(..) => "then",
            N::IfThen(..) => "if_then",
            N::Prefix(..) => "prefix",
            N::Suffix(..) => "suffix",
            N::Enclose(..) => "enclose",
            N::SepOnce(..) => "sep_once",
            N::Sel(..) => "select",
            N::Sep { .. } => "sep",
            N::Sep2 { .. } => "sep2",
            N::SepCollect { .. } => "sep_collect",
            N::Repeat(..) => "repeat",
            N::Repeat2(..) => "repeat2",
            N::Collect { .. } => "collect",
            N::Or(..) => "or",
            N::Longest(..) => "longest",
            N::Alts(k, l, _) => match (k, l) {
                (0, false) => "vector",
                (0, true) => "vector_ltm",
                (1, false) => "array",
                (1, true) => "array_ltm",
                (_, false) => "slice",
                (_, true) => "slice_ltm",
            },
            N::Pairs(k, l, _) => match (k, l) {
                (0, false) => "pair_vector",
                (0, true) => "pair_vector_ltm",
                (1, false) => "pair_array",
                (1, true) => "pair_array_ltm",
                (_, false) => "pair_slice",
                (_, true) => "pair_slice_ltm",
            },
            N::Opt(_) => "opt",
            N::Branch { .. } => "branch",
            N::DynThen(..) => "ctor_then_builder",
            N::Map(..) => "map",
            N::Ws { lead, uni, .. } => match (lead, uni) {
                (false, true) => "skip_ws",
                (false, false) => "skip_ascii_ws",
                (true, true) => "skip_ws_leading",
                (true, false) => "skip_ascii_ws_leading",
            },
            N::Hold(..) => "holder",
            N::Func(_) => "func",
            N::Rec(_) => "rec_parser",
            N::Ref(_) => "self_reference",
        }
    }
}

impl Node {
    pub fn kids(&self) -> Vec<&Node> {
        match &self.k {
            N::Unit { cond: Cond::Rx(c), .. } => vec![c],
            N::Assert(_, _, a) | N::RxWrap(_, a) | N::Pat(a) | N::Sel(_, a) | N::Repeat(a, _) | N::Repeat2(a, _)
            | N::Opt(a) | N::Map(a, _) | N::Hold(_, a) | N::Func(a) | N::Rec(a) | N::Ws { a, .. } | N::Collect { item: a, .. } => vec![a],
            N::Then(a, b) | N::Prefix(a, b) | N::Suffix(a, b) | N::Or(a, b) | N::Longest(a, b)
            | N::Sep { item: a, sep: b, .. } | N::Sep2 { item: a, sep: b, .. } | N::SepCollect { item: a, sep: b, .. }
            | N::Branch { yes: a, no: b, .. } => vec![a, b],
            N::IfThen(a, b, c) | N::Enclose(a, b, c) | N::SepOnce(a, b, c) | N::Around(_, a, b, c) => vec![a, b, c],
            N::Alts(_, _, v) | N::Pairs(_, _, v) => v.iter().collect(),
            N::RxBuilder(a, v) | N::DynThen(a, v) => {
                let mut r = vec![&**a];
                r.extend(v.iter());
                r
            }
            _ => vec![],
        }
    }

    pub fn kids_mut(&mut self) -> Vec<&mut Node> {
        match &mut self.k {
            N::Unit { cond: Cond::Rx(c), .. } => vec![c],
            N::Assert(_, _, a) | N::RxWrap(_, a) | N::Pat(a) | N::Sel(_, a) | N::Repeat(a, _) | N::Repeat2(a, _)
            | N::Opt(a) | N::Map(a, _) | N::Hold(_, a) | N::Func(a) | N::Rec(a) | N::Ws { a, .. } | N::Collect { item: a, .. } => vec![a],
            N::Then(a, b) | N::Prefix(a, b) | N::Suffix(a, b) | N::Or(a, b) | N::Longest(a, b)
            | N::Sep { item: a, sep: b, .. } | N::Sep2 { item: a, sep: b, .. } | N::SepCollect { item: a, sep: b, .. }
            | N::Branch { yes: a, no: b, .. } => vec![a, b],
            N::IfThen(a, b, c) | N::Enclose(a, b, c) | N::SepOnce(a, b, c) | N::Around(_, a, b, c) => vec![a, b, c],
            N::Alts(_, _, v) | N::Pairs(_, _, v) => v.iter_mut().collect(),
            N::RxBuilder(a, v) | N::DynThen(a, v) => {
                let mut r: Vec<&mut Node> = vec![a];
                r.extend(v.iter_mut());
                r
            }
            _ => vec![],
        }
    }

    pub fn walk<'x>(&'x self, f: &mut dyn FnMut(&'x Node)) {
        f(self);
        for k in self.kids() {
            k.walk(f);
        }
    }

    pub fn has(&self, p: &dyn Fn(&N) -> bool) -> bool {
        let mut r = false;
        self.walk(&mut |n| r |= p(&n.k));
        r
    }

    /// May succeed without consuming (conservative).
    pub fn nullable(&self) -> bool {
        match &self.k {
            N::Unit { f, .. } => match f {
                Form::Once | Form::Many1 | Form::Then(_) => false,
                Form::Opt | Form::Many0 => true,
                Form::Between(i) => MN[*i as usize].0 == 0,
                Form::AtLeast(n) => *n == 0,
                Form::Times(r) => r.min() == 0,
            },
            N::Lit { .. } => false,
            N::Consume(n) => *n == 0,
            N::ConsumeAll | N::Start | N::End | N::Empty | N::Assert(..) | N::Opt(_) | N::Ref(_) => true,
            N::Fail => false,
            N::Clo { min, .. } => *min == 0,
            N::RxWrap(_, a) | N::Pat(a) | N::Sel(_, a) | N::Map(a, _) | N::Hold(_, a) | N::Func(a) | N::Rec(a)
            | N::Ws { a, .. } => a.nullable(),
            N::IfThen(a, _, _) => a.nullable(),
            N::Then(a, b) | N::Prefix(a, b) | N::Suffix(a, b) => a.nullable() && b.nullable(),
            N::Enclose(a, b, c) | N::SepOnce(a, b, c) => a.nullable() && b.nullable() && c.nullable(),
            N::Around(w, a, b, c) => a.nullable() && (*w == 1 || b.nullable()) && (*w == 0 || c.nullable()),
            N::Sep { item, min, .. } => *min == 0 || item.nullable(),
            N::SepCollect { item, min, .. } => *min == 0 || item.nullable(),
            N::Sep2 { item, mn, .. } => MN[*mn as usize].0 == 0 || item.nullable(),
            N::Repeat(a, r) => r.min() == 0 || a.nullable(),
            N::Repeat2(a, i) => MN[*i as usize].0 == 0 || a.nullable(),
            N::Collect { item, min, .. } => *min == 0 || item.nullable(),
            N::Or(a, b) | N::Longest(a, b) | N::Branch { yes: a, no: b, .. } => a.nullable() || b.nullable(),
            N::Alts(_, _, v) | N::Pairs(_, _, v) => v.iter().any(|n| n.nullable()),
            N::RxBuilder(a, v) | N::DynThen(a, v) => a.nullable() && v.iter().any(|n| n.nullable()),
        }
    }

    pub fn show(&self) -> String {
        let l = |v: &Vec<Node>| {
            let v: Vec<String> = v.iter().map(|n| n.show()).collect();
            let runs = v.chunk_by(|a, b| a == b).flat_map(|r| match r.len() {
                n @ 10.. => vec![format!("{n} times {}", r[0])],
                _ => r.to_vec(),
            });
            runs.collect::<Vec<_>>().join(", ")
        };
        let set = |s: &u32| (0..ALPHA.len()).filter(|i| s >> i & 1 == 1).map(|i| ALPHA[i]).collect::<String>();
        let id = self.id;
        match &self.k {
            N::Unit { u, f, cond } => {
                let f = match f {
                    Form::Between(i) => format!("between<{:?}>", MN[*i as usize]),
                    Form::AtLeast(n) => format!("at_least<{n}>"),
                    Form::Times(r) => format!("times({})", r.show()),
                    Form::Then(u) => format!("then({})", u.show()),
                    x => format!("{x:?}").to_lowercase(),
                };
                let c = match cond {
                    Cond::None => String::new(),
                    Cond::Clo(s) => format!(".cond#{id}({:?})", set(s)),
                    Cond::Rx(r) => format!(".regex_cond({})", r.show()),
                };
                let p = if matches!(u, U::Pred(_)) { format!("#{id}") } else { String::new() };
                format!("{}{p}.{f}{c}", u.show())
            }
            N::Lit { i, .. } => format!("{:?}", LITS[*i as usize]),
            N::Consume(n) => format!("consume({n})"),
            N::Clo { set: s, min, max, dirty } => {
                format!("closure#{id}({:?} {min}..={max}{})", set(s), if *dirty { " dirty" } else { "" })
            }
            N::Assert(true, _, a) => format!("peek({})", a.show()),
            N::Assert(false, _, a) => format!("not({})", a.show()),
            N::RxWrap(i, a) => format!("{}({})", RX_HOLD[*i as usize], a.show()),
            N::Hold(i, a) => format!("{}({})", HOLD_PLAIN[*i as usize], a.show()),
            N::RxBuilder(a, v) => format!("regex_builder#{id}({}; {})", a.show(), l(v)),
            N::Around(w, a, b, c) => format!("{}({}, {}, {})", crate::forms::POLICIES[*w as usize], a.show(), b.show(), c.show()),
            N::DynThen(a, v) => format!("ctor_then_builder#{id}({}; {})", a.show(), l(v)),
            N::IfThen(a, b, c) => format!("if_then({}, test {}, {})", a.show(), b.show(), c.show()),
            N::Enclose(a, b, c) => format!("enclose({}, open {}, close {})", a.show(), b.show(), c.show()),
            N::SepOnce(a, b, c) => format!("sep_once({}, {}, {})", a.show(), b.show(), c.show()),
            N::Sel(i, a) => format!("{}.{}", a.show(), ["_0", "_1", "_eq", "neq"][*i as usize]),
            N::Sep { item, sep, skip, min } => format!("sep({}, {}, skip={skip}, min={min})", item.show(), sep.show()),
            N::Sep2 { item, sep, skip, mn } => {
                format!("sep2<{:?}>({}, {}, skip={skip})", MN[*mn as usize], item.show(), sep.show())
            }
            N::SepCollect { item, sep, skip, min, take } => {
                format!("sep_collect({}, {}, skip={skip}, min={min}, take={take})", item.show(), sep.show())
            }
            N::Repeat(a, r) => format!("repeat({}, {})", a.show(), r.show()),
            N::Repeat2(a, i) => format!("repeat2<{:?}>({})", MN[*i as usize], a.show()),
            N::Collect { item, min, take } => format!("collect({}, min={min}, take={take})", item.show()),
            N::Alts(_, _, v) | N::Pairs(_, _, v) => format!("{}({})", self.k.name(), l(v)),
            N::Branch { set: s, yes, no, .. } => format!("if_else#{id}({:?}, {}, {})", set(s), yes.show(), no.show()),
            N::Map(a, k) => format!("{}#{id}({})", ["map", "try_map", "with_default"][*k as usize], a.show()),
            N::Ref(r) => format!("self#{r}"),
            N::Rec(a) => format!("rec#{id}({})", a.show()),
            _ => {
                let k = self.kids();
                if k.is_empty() {
                    self.k.name().into()
                } else {
                    format!("{}({})", self.k.name(), k.iter().map(|n| n.show()).collect::<Vec<_>>().join(", "))
                }
            }
        }
    }
}

/// What a generated grammar may contain.
#[derive(Clone, Debug)]
pub struct Profile {
    /// (kind, weight), kinds as in `gen_kind`
    pub w: Vec<(&'static str, u32)>,
    pub max_nodes: u32,
    pub max_depth: u32,
    pub conds: bool,
    pub preds: bool,
    pub dirty: bool,
    pub text: bool,
    pub mutex: bool,
    pub refcell: bool,
    /// holders that are usable from several threads only
    pub sync_only: bool,
}

pub const LEAVES: [(&str, u32); 12] = [
    ("unit", 14), ("lit", 12), ("consume", 2), ("consume_all", 1), ("start", 1), ("end", 2), ("empty", 1), ("fail", 1),
    ("clo", 4), ("assert", 3), ("rxwrap", 2), ("pat", 2),
];

pub struct Gen<'t> {
    pub t: &'t mut Tape,
    pub p: Profile,
    next: u32,
    left: i32,
    recs: Vec<(u32, bool)>,
}

#[derive(Clone, Copy)]
struct At {
    depth: u32,
    /// regex mode: no construct-only parsers
    rx: bool,
    /// input was consumed since the innermost recursive definition started
    guarded: bool,
}

impl<'t> Gen<'t> {
    pub fn new(t: &'t mut Tape, p: Profile) -> Self {
        let left = p.max_nodes as i32;
        Gen { t, p, next: 1, left, recs: vec![] }
    }

    pub fn root(&mut self, rx: bool) -> Node {
        self.node(At { depth: 0, rx, guarded: false })
    }

    /// Identities from here on, for several grammars in one run.
    pub fn start_at(&mut self, id: u32) {
        self.next = id;
    }

    /// A root of one of the given kinds.
    pub fn root_of(&mut self, kinds: &[&'static str], rx: bool) -> Node {
        let k = *self.t.pick(kinds);
        self.kind(k, At { depth: 0, rx, guarded: false })
    }

    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }

    fn node(&mut self, at: At) -> Node {
        self.left -= 1;
        let leaf_only = at.depth >= self.p.max_depth || self.left <= 0;
        let w: Vec<(&'static str, u32)> = self
            .p
            .w
            .iter()
            .filter(|(k, _)| !((at.rx || !self.recs.is_empty()) && matches!(*k, "dynthen" | "func")))
            .filter(|(k, _)| !leaf_only || matches!(*k, "unit" | "lit" | "consume" | "start" | "end" | "empty" | "fail" | "clo" | "ref"))
            .filter(|(k, _)| *k != "ref" || (at.guarded && !self.recs.is_empty()))
            .filter(|(k, _)| *k != "rec" || self.recs.len() < 2)
            .copied()
            .collect();
        let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
        let i = self.t.weighted(&ws);
        let k = w.get(i).map(|x| x.0).unwrap_or("lit");
        self.kind(k, at)
    }

    fn lit(&mut self) -> Node {
        let id = self.id();
        let form = self.t.draw(6) as u8;
        let i = self.t.draw(LITS.len() as u32) as u8;
        Node { id, k: N::Lit { form, i } }
    }

    fn unit_u(&mut self, depth: u32) -> U {
        let t = self.p.text;
        let ch = |g: &mut Self| loop {
            let c = *g.t.pick(&ALPHA);
            if t || c.is_ascii() {
                break c;
            }
            if g.t.draw(2) == 0 {
                break 'a';
            }
        };
        let n = if depth == 0 { 14 } else { 10 };
        match self.t.draw(n) {
            0 => U::Ch(ch(self)),
            1 => U::Alpha,
            2 => U::Digit,
            3 => U::Range('a', 'c'),
            4 => U::RangeEx('a', 'c'),
            5 => match self.t.draw(4) {
                0 | 1 => U::Ws,
                2 => U::Blank,
                _ => {
                    let k = self.t.draw(BOUNDS.len() as u32) as u8;
                    let (a, b) = (ch(self), ch(self));
                    U::Bounds(k, a.min(b), a.max(b))
                }
            },
            6 => U::Wild,
            7 => U::Arr(ch(self), ch(self)),
            8 => {
                if self.p.preds {
                    U::Pred(self.set())
                } else {
                    U::Alnum
                }
            }
            9 => match self.t.draw(4) {
                0 => U::Punct,
                1 => U::Eq(ch(self)),
                2 => U::Alnum,
                _ => U::Never,
            },
            10 => U::Not(Box::new(self.unit_u(depth + 1))),
            11 => U::Or(Box::new(self.unit_u(depth + 1)), Box::new(self.unit_u(depth + 1))),
            12 => U::And(Box::new(self.unit_u(depth + 1)), Box::new(self.unit_u(depth + 1))),
            _ => {
                let k = match self.t.draw(13) as u8 {
                    // shared between threads
                    k @ (10 | 11) if self.p.sync_only => [2, 4][k as usize - 10],
                    // a lock that a panic has poisoned panics on each use
                    12 if !self.p.mutex => 5,
                    k => k,
                };
                let u = if matches!(k, 8 | 9) { U::Arr(ch(self), ch(self)) } else { self.unit_u(depth + 1) };
                U::Held(k, Box::new(u))
            }
        }
    }

    fn set(&mut self) -> u32 {
        let mut s = 0;
        for _ in 0..4 {
            s |= 1 << self.t.draw(ALPHA.len() as u32);
        }
        if self.t.draw(3) == 1 {
            s |= 0b1111;
        }
        s
    }

    fn mn(&mut self) -> u8 {
        match self.t.draw(8) {
            7 => 7 + self.t.draw(2) as u8,
            i => i as u8,
        }
    }

    fn rng(&mut self, cap: u32) -> Rng {
        let mut a = self.t.draw(cap) as usize;
        let mut d = self.t.draw(3) as usize;
        if self.t.draw(12) == 11 {
            a = self.t.draw(20) as usize;
            d = self.t.draw(40) as usize;
        }
        match self.t.draw(11) {
            0 | 1 => Rng::Incl(a, a + d),
            2 => Rng::Excl(a, a + d + 1),
            3 => Rng::From(a),
            4 => Rng::ToIncl(a + d),
            5 => Rng::To(a + d + 1),
            6 => Rng::Exact(a),
            7 => Rng::Full,
            8 => match self.t.draw(3) {
                0 => Rng::ExIncl(a, a + d + 1),
                1 => Rng::ExExcl(a, a + d + 2),
                _ => Rng::ExFrom(a),
            },
            9 => match self.t.draw(4) {
                0 => Rng::ToIncl(usize::MAX),
                1 => Rng::To(usize::MAX),
                2 => Rng::Incl(a, usize::MAX - d),
                _ => Rng::Excl(a, usize::MAX - d),
            },
            // nothing lies in these
            _ => match self.t.draw(4) {
                0 => Rng::To(0),
                1 => Rng::Excl(a, a.saturating_sub(d)),
                2 => Rng::Incl(a + 1 + d, a),
                _ => Rng::ExExcl(a, a + 1),
            },
        }
    }

    fn unit(&mut self, at: At) -> Node {
        let id = self.id();
        let u = self.unit_u(0);
        let f = match self.t.draw(9) {
            0 | 1 => Form::Once,
            2 => Form::Many1,
            3 => Form::Many0,
            4 => Form::Opt,
            5 => Form::Between(self.mn()),
            6 => {
                let r = self.rng(3);
                // an empty range is refused when the parser is made
                Form::Times(if r.max().is_some_and(|m| m < r.min()) { Rng::To(0) } else { r })
            }
            7 => Form::Then(self.unit_u(1)),
            _ => {
                if self.t.draw(2) == 0 {
                    Form::AtLeast(self.t.draw(3) as u8)
                } else {
                    Form::Many1
                }
            }
        };
        let cond = if self.p.conds {
            match self.t.draw(6) {
                5 => Cond::Clo(self.set() | self.set()),
                4 if at.depth < self.p.max_depth => Cond::Rx(Box::new(self.node(At { rx: true, depth: at.depth + 1, ..at }))),
                _ => Cond::None,
            }
        } else {
            Cond::None
        };
        Node { id, k: N::Unit { u, f, cond } }
    }

    fn nonnull(&mut self, at: At) -> Node {
        let n = self.node(at);
        self.make_nonnull(n)
    }

    fn make_nonnull(&mut self, n: Node) -> Node {
        if !n.nullable() {
            return n;
        }
        let l = self.lit();
        let id = self.id();
        if self.t.draw(2) == 0 {
            Node { id, k: N::Then(Box::new(l), Box::new(n)) }
        } else {
            Node { id, k: N::Suffix(Box::new(n), Box::new(l)) }
        }
    }

    fn alts(&mut self, at: At) -> Vec<Node> {
        let n = 1 + self.t.draw(4);
        let n = if n == 4 && self.left > 4 && self.t.draw(6) == 5 { 7 } else { n };
        (0..n).map(|_| self.node(at)).collect()
    }

    /// Sometimes a long list of alternatives, most of which are one rare literal.
    fn many_alts(&mut self, at: At) -> Vec<Node> {
        let mut v = self.alts(at);
        if self.t.draw(24) != 23 {
            return v;
        }
        let many = if self.t.draw(3) == 2 { 300 } else { 70 };
        let i = [17, 16, 18, 13][self.t.draw(4) as usize];
        let form = self.t.draw(6) as u8;
        let at = self.t.draw(v.len() as u32 + 1) as usize;
        while v.len() < many {
            v.insert(at, Node { id: self.id(), k: N::Lit { form, i } });
        }
        v
    }

    fn kind(&mut self, k: &'static str, at0: At) -> Node {
        let at = At { depth: at0.depth + 1, ..at0 };
        let rx = At { rx: true, ..at };
        macro_rules! bx {
            ($at:expr) => {
                Box::new(self.node($at))
            };
        }
        let id = self.id();
        let k = match k {
            "unit" => return self.unit(at0),
            "lit" => return self.lit(),
            "consume" => N::Consume(if self.t.draw(10) == 9 { self.t.draw(20) } else { self.t.draw(4) } as u8),
            "consume_all" => N::ConsumeAll,
            "start" => N::Start,
            "end" => N::End,
            "empty" => N::Empty,
            "fail" => N::Fail,
            "clo" => {
                let min = self.t.draw(3) as u8;
                let max = min.max(1) + self.t.draw(2) as u8;
                N::Clo { set: self.set() | self.set(), min, max, dirty: self.p.dirty && self.t.draw(2) == 1 }
            }
            "assert" => N::Assert(self.t.draw(2) == 0, self.t.draw(3) as u8, bx!(rx)),
            "rxwrap" => {
                let mut h = self.t.draw(RX_HOLD.len() as u32) as u8;
                if h == 6 && !self.p.mutex || self.p.sync_only && !matches!(h, 0 | 1 | 2 | 6 | 10..=13) {
                    h = 0;
                }
                N::RxWrap(h, bx!(rx))
            }
            "rxbuilder" => {
                let a = bx!(rx);
                N::RxBuilder(a, self.alts(rx))
            }
            "around" => {
                let w = self.t.draw(3) as u8;
                // what is before comes first
                let b = bx!(rx);
                let a = bx!(rx);
                N::Around(w, a, b, bx!(rx))
            }
            "pat" => N::Pat(bx!(rx)),
            "then" => {
                let a = bx!(at);
                let g = at.guarded || !a.nullable();
                N::Then(a, bx!(At { guarded: g, ..at }))
            }
            "ifthen" => {
                let a = bx!(at);
                let g = at.guarded || !a.nullable();
                let b = bx!(At { guarded: g, ..rx });
                let g2 = g || !b.nullable();
                N::IfThen(a, b, bx!(At { guarded: g2, ..at }))
            }
            "prefix" => {
                let pre = bx!(rx);
                let g = at.guarded || !pre.nullable();
                N::Prefix(bx!(At { guarded: g, ..at }), pre)
            }
            "suffix" => {
                let a = bx!(at);
                let g = at.guarded || !a.nullable();
                N::Suffix(a, bx!(At { guarded: g, ..rx }))
            }
            "enclose" => {
                let o = bx!(rx);
                let g = at.guarded || !o.nullable();
                let a = bx!(At { guarded: g, ..at });
                let g = g || !a.nullable();
                N::Enclose(a, o, bx!(At { guarded: g, ..rx }))
            }
            "seponce" => {
                let a = bx!(at);
                let g = at.guarded || !a.nullable();
                let s = bx!(At { guarded: g, ..rx });
                let g = g || !s.nullable();
                N::SepOnce(a, s, bx!(At { guarded: g, ..at }))
            }
            "sel" => {
                let which = self.t.draw(4) as u8;
                let n = if at.rx || !self.recs.is_empty() { 3 } else { 4 };
                let kind = ["then", "ifthen", "seponce", "dynthen"][self.t.draw(n) as usize];
                let inner = Box::new(self.kind(kind, at));
                N::Sel(which, inner)
            }
            "sep" | "sep2" | "sepcollect" => {
                let mut item = self.node(at);
                let g = at.guarded || !item.nullable();
                let sep = if self.t.draw(3) > 0 { self.lit() } else { self.node(At { guarded: g, ..rx }) };
                if item.nullable() && sep.nullable() {
                    item = self.make_nonnull(item);
                }
                let skip = self.t.draw(3) > 0;
                let min = self.t.draw(4) as u8;
                let (item, sep) = (Box::new(item), Box::new(sep));
                match k {
                    "sep" => N::Sep { item, sep, skip, min },
                    "sep2" => N::Sep2 { item, sep, skip, mn: self.mn() },
                    _ => N::SepCollect { item, sep, skip, min, take: self.take() },
                }
            }
            "repeat" => {
                let r = self.rng(3);
                let a = if r.max().is_none_or(|m| m > 100) { self.nonnull(at) } else { self.node(at) };
                N::Repeat(Box::new(a), r)
            }
            "repeat2" => N::Repeat2(bx!(at), self.mn()),
            "collect" => {
                let item = Box::new(self.nonnull(at));
                N::Collect { item, min: self.t.draw(3) as u8, take: self.take() }
            }
            "or" => N::Or(bx!(at), bx!(at)),
            "longest" => N::Longest(bx!(at), bx!(at)),
            "alts" => {
                let (k, l) = (self.t.draw(3) as u8, false);
                N::Alts(k, l, self.many_alts(at))
            }
            "alts_ltm" => {
                let (k, l) = (self.t.draw(3) as u8, true);
                N::Alts(k, l, self.many_alts(at))
            }
            "pairs" => {
                let (k, l) = (self.t.draw(3) as u8, false);
                N::Pairs(k, l, self.many_alts(at))
            }
            "pairs_ltm" => {
                let (k, l) = (self.t.draw(3) as u8, true);
                N::Pairs(k, l, self.many_alts(at))
            }
            "opt" => N::Opt(bx!(at)),
            "branch" => N::Branch { set: self.set() | self.set(), yes: bx!(at), no: bx!(at), free: self.t.draw(2) == 1 },
            "dynthen" => {
                let a = bx!(at);
                let g = at.guarded || !a.nullable();
                N::DynThen(a, self.alts(At { guarded: g, ..at }))
            }
            "map" => N::Map(bx!(at), [0, 1, 1, 2][self.t.draw(4) as usize]),
            "ws" => {
                let (lead, uni) = (self.t.draw(2) == 1, self.t.draw(2) == 1);
                N::Ws { lead, uni: uni && self.p.text, a: bx!(at) }
            }
            "hold" => {
                let mut h = self.t.draw(HOLD_PLAIN.len() as u32) as u8;
                if h == 5 && !self.p.mutex || h == 4 && !self.p.refcell || self.p.sync_only && !matches!(h, 0 | 1 | 5 | 9..=12 | 16)
                {
                    h = 0;
                }
                N::Hold(h, bx!(at))
            }
            "func" => N::Func(bx!(at)),
            "rec" => {
                self.recs.push((id, at.rx));
                let mut body = self.node(At { guarded: false, ..at });
                if !body.has(&|n| matches!(n, N::Ref(r) if *r == id)) {
                    // a definition that refers to itself after all
                    let me = Box::new(Node { id: self.id(), k: N::Ref(id) });
                    let (i, j, k) = (self.id(), self.id(), self.id());
                    let lit = |id, i| Box::new(Node { id, k: N::Lit { form: 0, i } });
                    let me = Box::new(match self.t.draw(3) {
                        0 => Node { id: i, k: N::Enclose(me, lit(j, 3), lit(k, 4)) },
                        1 => Node { id: i, k: N::Then(lit(j, 0), me) },
                        _ => Node { id: i, k: N::Prefix(Box::new(Node { id: k, k: N::Opt(me) }), lit(j, 9)) },
                    });
                    let id = self.id();
                    body = match self.t.draw(4) {
                        0 => Node { id, k: N::Longest(me, Box::new(body)) },
                        1 => Node { id, k: N::Alts(self.t.draw(3) as u8, self.t.draw(2) == 1, vec![*me, body]) },
                        _ => Node { id, k: N::Or(me, Box::new(body)) },
                    };
                }
                self.recs.pop();
                N::Rec(Box::new(body))
            }
            "ref" => {
                let i = self.t.draw(self.recs.len() as u32) as usize;
                let (r, _) = self.recs[self.recs.len() - 1 - i];
                N::Ref(r)
            }
            _ => unreachable!("{k}"),
        };
        Node { id, k }
    }

    fn take(&mut self) -> u8 {
        // 0 takes everything, 100 nothing, 101 asks again after the end (which would
        // make a recursive grammar take exponential time)
        match [0, 0, 1, 2, 3, 12, 100, 101][self.t.draw(8) as usize] {
            101 if !self.recs.is_empty() => 0,
            x => x,
        }
    }
}

/// Derives a text that the grammar is likely to match.
pub struct Sampler<'t, 'g> {
    pub t: &'t mut Tape,
    pub root: &'g Node,
    pub out: String,
    pub ws: u32,
    pub depth: u32,
    pub max_len: usize,
}

impl<'t, 'g> Sampler<'t, 'g> {
    fn find(&self, id: u32) -> Option<&'g Node> {
        let mut r = None;
        self.root.walk(&mut |n| {
            if n.id == id {
                r = Some(n)
            }
        });
        r
    }

    fn tok(&mut self) {
        if self.ws > 0 && self.t.draw(self.ws.min(3) + 1) == 0 {
            for _ in 0..1 + self.t.draw(2) {
                if self.ws == 4 {
                    let c = *self.t.pick(&["--a1\n", "[[a]]", "[[]]", "--\n", " ", " ", "[[ ;\n]]", "--(]]\n"]);
                    self.out.push_str(c);
                    continue;
                }
                self.out.push(match self.t.draw(3) {
                    1 if self.ws == 3 => '\u{3000}',
                    2 => '\t',
                    _ => ' ',
                });
            }
        }
    }

    fn member(&mut self, set: impl Fn(u32) -> bool) {
        let ok: Vec<char> = ALPHA.iter().copied().filter(|c| set(*c as u32)).collect();
        if ok.is_empty() {
            self.out.push('a');
        } else {
            let c = *self.t.pick(&ok);
            self.out.push(c);
        }
    }

    fn unit(&mut self, u: &U) {
        let u = u.clone();
        self.member(|c| u.accepts(c, true, &mut |_| false));
    }

    fn times(&mut self, min: usize, max: Option<usize>) -> usize {
        let mut more = 3;
        if self.max_len >= 2000 && self.t.draw(2) == 0 {
            more = [70, 300, 1100, 5000][self.t.draw(4) as usize];
        } else if self.max_len >= 200 && self.t.draw(3) == 0 {
            more = [8, 20, 70, 300][self.t.draw(4) as usize];
        }
        let hi = max.unwrap_or(min + more).clamp(min, min + more);
        let mut n = min + self.t.draw((hi - min) as u32 + 1) as usize;
        if self.t.draw(6) == 5 {
            n = hi + self.t.draw(2) as usize; // sometimes more than the maximum
        }
        n
    }

    pub fn go(&mut self, n: &'g Node) {
        if self.out.len() > self.max_len {
            return;
        }
        match &n.k {
            N::Unit { u, f, cond } => {
                self.tok();
                let sel = match cond {
                    Cond::Clo(s) => U::And(Box::new(u.clone()), Box::new(U::Pred(*s))),
                    _ => u.clone(),
                };
                let k = match f {
                    Form::Once => 1,
                    Form::Opt => self.t.draw(2) as usize,
                    Form::Many0 => self.times(0, None),
                    Form::Many1 => self.times(1, None),
                    Form::Between(i) => self.times(MN[*i as usize].0, Some(MN[*i as usize].1)),
                    Form::AtLeast(n) => self.times(*n as usize, None),
                    Form::Times(r) => self.times(r.min(), r.max()),
                    Form::Then(r) => {
                        self.unit(&sel);
                        self.unit(&r.clone());
                        0
                    }
                };
                for _ in 0..k {
                    self.unit(&sel);
                }
            }
            N::Lit { i, .. } => {
                self.tok();
                self.out.push_str(LITS[*i as usize])
            }
            N::Consume(n) => {
                self.tok();
                for _ in 0..*n {
                    let c = *self.t.pick(&['a', '1', ',']);
                    self.out.push(c);
                }
            }
            N::ConsumeAll | N::Start | N::End | N::Empty | N::Fail => {}
            N::Clo { set, min, max, .. } => {
                self.tok();
                let k = *min as usize + self.t.draw((*max - *min) as u32 + 1) as usize;
                let s = *set;
                for _ in 0..k {
                    self.member(|c| in_set(s, c));
                }
            }
            N::Assert(..) => {}
            N::Around(w, a, b, c) => {
                if *w != 1 {
                    self.go(b);
                }
                self.go(a);
                if *w != 0 {
                    self.go(c);
                }
            }
            N::RxBuilder(a, v) | N::DynThen(a, v) => {
                self.go(a);
                let i = self.t.draw(v.len() as u32) as usize;
                self.go(&v[i]);
            }
            N::RxWrap(_, a) | N::Pat(a) | N::Sel(_, a) | N::Map(a, _) | N::Hold(_, a) | N::Func(a) | N::Rec(a) => {
                if let N::Sel(2, inner) = &n.k
                    && let N::Then(x, _) | N::SepOnce(x, _, _) = &inner.k
                {
                    // make the two sides equal when possible
                    let b = self.out.len();
                    self.go(x);
                    let s = self.out[b..].to_string();
                    if let N::SepOnce(_, y, _) = &inner.k {
                        self.go(y);
                    }
                    self.out.push_str(&s);
                    return;
                }
                self.go(a)
            }
            N::Then(a, b) | N::Suffix(a, b) => {
                self.go(a);
                self.go(b);
            }
            N::Ws { lead, uni, a } => {
                if !lead {
                    self.go(a);
                }
                for _ in 0..self.t.draw(3) {
                    let c = *self.t.pick(&[' ', '\t', '\n', if *uni { '\u{3000}' } else { ' ' }]);
                    self.out.push(c);
                }
                if *lead {
                    self.go(a);
                }
            }
            N::Prefix(a, p) => {
                self.go(p);
                self.go(a);
            }
            N::IfThen(a, b, c) => {
                self.go(a);
                match self.t.draw(4) {
                    0 => {}
                    1 => self.go(b),
                    _ => {
                        self.go(b);
                        self.go(c)
                    }
                }
            }
            N::Enclose(a, o, c) => {
                self.go(o);
                self.go(a);
                self.go(c);
            }
            N::SepOnce(a, s, b) => {
                self.go(a);
                self.go(s);
                self.go(b);
            }
            N::Sep { item, sep, min, .. } | N::SepCollect { item, sep, min, .. } => {
                let k = self.times(*min as usize, None);
                self.list(item, sep, k);
            }
            N::Sep2 { item, sep, mn, .. } => {
                let k = self.times(MN[*mn as usize].0, Some(MN[*mn as usize].1));
                self.list(item, sep, k);
            }
            N::Repeat(a, r) => {
                let k = self.times(r.min(), r.max());
                for _ in 0..k {
                    self.go(a);
                }
            }
            N::Repeat2(a, i) => {
                let k = self.times(MN[*i as usize].0, Some(MN[*i as usize].1));
                for _ in 0..k {
                    self.go(a);
                }
            }
            N::Collect { item, min, .. } => {
                let k = self.times(*min as usize, None);
                for _ in 0..k {
                    self.go(item);
                }
            }
            N::Or(a, b) | N::Longest(a, b) | N::Branch { yes: a, no: b, .. } => {
                if self.t.draw(2) == 0 {
                    self.go(a)
                } else {
                    self.go(b)
                }
            }
            N::Alts(_, _, v) | N::Pairs(_, _, v) => {
                let n = v.len();
                // a long list has its real ones at its ends
                let i = if n >= 70 && self.t.draw(2) == 0 {
                    let i = self.t.draw(8) as usize;
                    if i < 4 { i } else { n - 8 + i }
                } else {
                    self.t.draw(n as u32) as usize
                };
                self.go(&v[i]);
            }
            N::Opt(a) => {
                if self.t.draw(3) > 0 {
                    self.go(a)
                }
            }
            N::Ref(r) => {
                if self.depth > 0 && self.t.draw(5) > 0 {
                    self.depth -= 1;
                    if let Some(n) = self.find(*r) {
                        self.go(n);
                    }
                    self.depth += 1;
                } else {
                    self.out.push(['a', '1'][self.t.draw(2) as usize]);
                }
            }
        }
    }

    fn list(&mut self, item: &'g Node, sep: &'g Node, k: usize) {
        for i in 0..k {
            self.go(item);
            if i + 1 < k || self.t.draw(2) == 1 {
                self.go(sep);
            }
        }
    }
}

/// Small damage to a text.
pub fn mutate(t: &mut Tape, s: &mut String, n: u32) {
    for _ in 0..n {
        let mut c: Vec<char> = s.chars().collect();
        let at = t.draw(c.len() as u32 + 1) as usize;
        match t.draw(5) {
            0 => c.insert(at, *t.pick(&ALPHA)),
            1 => {
                if at < c.len() {
                    c.remove(at);
                }
            }
            2 => {
                if at < c.len() {
                    c[at] = *t.pick(&ALPHA);
                }
            }
            3 => c.truncate(at),
            _ => {
                if at < c.len() {
                    let d = c[at];
                    c.insert(at, d);
                }
            }
        }
        *s = c.into_iter().collect();
    }
}
