
/// The value that every simulated construction produces.
#[derive(Clone, Debug)]
pub enum V {
    /// one handler invocation: the span and which invocation it was
    Tok { b: u32, l: u32, text: u64, uid: u64 },
    Pair(Box<V>, Box<V>),
    List(Vec<V>),
    Opt(Option<Box<V>>),
    Map(u32, Box<V>),
    Tag(u32, Box<V>),
}

impl V {
    pub fn pair(a: V, b: V) -> V {
        V::Pair(Box::new(a), Box::new(b))
    }

    pub fn opt(a: Option<V>) -> V {
        V::Opt(a.map(Box::new))
    }

    /// Same value from the same places, whoever produced it.
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::Tok { b, l, .. }, V::Tok { b: b2, l: l2, .. }) => b == b2 && l == l2,
            (V::Pair(a, b), V::Pair(c, d)) => a.same(c) && b.same(d),
            (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (V::Opt(None), V::Opt(None)) => true,
            (V::Opt(Some(a)), V::Opt(Some(b))) => a.same(b),
            (V::Map(i, a), V::Map(j, b)) | (V::Tag(i, a), V::Tag(j, b)) => i == j && a.same(b),
            _ => false,
        }
    }

    pub fn hash(&self) -> u64 {
        fn go(v: &V, h: &mut u64) {
            let mut add = |x: u64| *h = crate::tape::mix(*h ^ x.wrapping_mul(0x9E37_79B9));
            match v {
                V::Tok { b, l, .. } => add(1 + (((*b as u64) << 20) | *l as u64) * 8),
                V::Pair(a, b) => {
                    add(2);
                    go(a, h);
                    go(b, h);
                }
                V::List(x) => {
                    add(3 + x.len() as u64 * 8);
                    for v in x {
                        go(v, h);
                    }
                }
                V::Opt(x) => {
                    add(4 + x.is_some() as u64 * 8);
                    if let Some(x) = x {
                        go(x, h);
                    }
                }
                V::Map(i, x) => {
                    add(5 + *i as u64 * 8);
                    go(x, h);
                }
                V::Tag(i, x) => {
                    add(6 + *i as u64 * 8);
                    go(x, h);
                }
            }
        }
        let mut h = 7;
        go(self, &mut h);
        h
    }

    pub fn toks(&self, out: &mut Vec<(u32, u32, u64)>) {
        match self {
            V::Tok { b, l, uid, .. } => out.push((*b, *l, *uid)),
            V::Pair(a, b) => {
                a.toks(out);
                b.toks(out);
            }
            V::List(x) => x.iter().for_each(|v| v.toks(out)),
            V::Opt(Some(x)) | V::Map(_, x) | V::Tag(_, x) => x.toks(out),
            V::Opt(None) => {}
        }
    }

    /// How many mapper results the value contains, and of which mappers.
    pub fn maps(&self, out: &mut Vec<(u32, u64)>) {
        match self {
            V::Tok { .. } | V::Opt(None) => {}
            V::Pair(a, b) => {
                a.maps(out);
                b.maps(out);
            }
            V::List(x) => x.iter().for_each(|v| v.maps(out)),
            V::Opt(Some(x)) | V::Tag(_, x) => x.maps(out),
            V::Map(i, x) => {
                x.maps(out);
                out.push((*i, x.hash()));
            }
        }
    }

    pub fn texts(&self, out: &mut Vec<(u64, u64)>) {
        match self {
            V::Tok { text, uid, .. } => out.push((*uid, *text)),
            V::Pair(a, b) => {
                a.texts(out);
                b.texts(out);
            }
            V::List(x) => x.iter().for_each(|v| v.texts(out)),
            V::Opt(Some(x)) | V::Map(_, x) | V::Tag(_, x) => x.texts(out),
            V::Opt(None) => {}
        }
    }

    /// The structure alone.
    pub fn shape_only(&self) -> String {
        self.render(&|_, _| "t".into())
    }

    /// The structure with the non-blank text of the leaves.
    pub fn words(&self, src: &[u8], skip: crate::model::Skip) -> String {
        self.render(&|b, l| {
            let t = src.get(b as usize..(b + l) as usize).unwrap_or(b"?");
            crate::model::bare(&String::from_utf8_lossy(t), skip)
        })
    }

    fn render(&self, leaf: &dyn Fn(u32, u32) -> String) -> String {
        match self {
            V::Tok { b, l, .. } => leaf(*b, *l),
            V::Pair(a, b) => format!("<{} {}>", a.render(leaf), b.render(leaf)),
            V::List(x) => format!("[{}]", x.iter().map(|v| v.render(leaf)).collect::<Vec<_>>().join(" ")),
            V::Opt(None) => "-".into(),
            V::Opt(Some(x)) => format!("?{}", x.render(leaf)),
            V::Map(i, x) => format!("m{i}({})", x.render(leaf)),
            V::Tag(i, x) => format!("g{i}({})", x.render(leaf)),
        }
    }

    pub fn show(&self) -> String {
        match self {
            V::Tok { b, l, .. } => format!("{}..{}", b, b + l),
            V::Pair(a, b) => format!("<{}, {}>", a.show(), b.show()),
            V::List(x) => {
                let mut x: Vec<String> = x.iter().map(|v| v.show()).collect();
                let n = x.len();
                if n > 200 {
                    let mid: Vec<String> = x.drain(10..n - 3).collect();
                    x.insert(10, format!("({} more, sum {:x})", n - 13, crate::tape::hash_str(&mid.join(","))));
                }
                format!("[{}]", x.join(", "))
            }
            V::Opt(None) => "none".into(),
            V::Opt(Some(x)) => format!("some {}", x.show()),
            V::Map(i, x) => format!("map{i}({})", x.show()),
            V::Tag(i, x) => format!("tag{i}({})", x.show()),
        }
    }
}

/// What `_eq` compares: the texts, not the places.
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Tok { text, .. }, V::Tok { text: t2, .. }) => text == t2,
            (V::Pair(a, b), V::Pair(c, d)) => a == c && b == d,
            (V::List(a), V::List(b)) => a == b,
            (V::Opt(a), V::Opt(b)) => a == b,
            (V::Map(i, a), V::Map(j, b)) | (V::Tag(i, a), V::Tag(j, b)) => i == j && a == b,
            _ => false,
        }
    }
}

impl PartialEq<Option<V>> for V {
    fn eq(&self, o: &Option<V>) -> bool {
        match o {
            Some(o) => self == o,
            None => false,
        }
    }
}
