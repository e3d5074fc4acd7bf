//! The only source of randomness: a tape of small choices, drawn from a seeded
//! generator and recorded, so that a run can be replayed and shrunk.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Of very long texts only the beginning and the length count.
pub fn hash_text(s: &str) -> u64 {
    let n = s.len();
    let part = if n > 20_000 && s.is_char_boundary(200) { &s[..200] } else { s };
    hash_str(part) ^ n as u64
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

static RECORD: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

/// From now on every choice is written to a file at once, for runs that do not come back.
pub fn record(path: &str) {
    let _ = RECORD.set(std::fs::File::create(path).expect("tape file"));
}

#[derive(Clone, Debug)]
pub struct Tape {
    pub data: Vec<u32>,
    pub pos: usize,
    state: Option<u64>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Self {
        Tape { data: Vec::new(), pos: 0, state: Some(mix(seed)) }
    }

    pub fn replay(data: Vec<u32>) -> Self {
        Tape { data, pos: 0, state: None }
    }

    /// A number below `n`. Past the end of a replayed tape it is 0.
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        if self.pos < self.data.len() {
            let v = self.data[self.pos] % n;
            self.data[self.pos] = v;
            self.pos += 1;
            return v;
        }
        match self.state.as_mut() {
            Some(s) => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let v = ((mix(*s) >> 32) % n as u64) as u32;
                self.data.push(v);
                self.pos += 1;
                if let Some(mut f) = RECORD.get() {
                    let _ = std::io::Write::write_all(&mut f, format!("{v}\n").as_bytes());
                }
                v
            }
            None => 0,
        }
    }

    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        // 0 on an exhausted or shrunk tape means "no"
        let v = self.draw(den);
        v >= den - num.min(den)
    }

    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        if total == 0 {
            return 0;
        }
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len() as u32) as usize]
    }
}
