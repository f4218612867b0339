//! Small deterministic PRNG (xoshiro256**), seeded per case.

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
    /// values which are returned again while `sticky`
    sticky: bool,
    last_word: u16,
    last_value: f32,
    last_data: Vec<u8>,
    /// literals which are new in the sources
    novel: Option<&'static crate::dict::Novel>,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
            sticky: false,
            last_word: 0,
            last_value: 0.0,
            last_data: vec![],
            novel: crate::dict::novel(),
        }
    }
    /// Are equal values wanted? This changes now and then, so that some
    /// stretches of the generated data are full of repetitions.
    fn sticks(&mut self) -> bool {
        if self.sticky {
            self.sticky = !self.chance(1, 24);
        } else {
            self.sticky = self.chance(1, 96);
        }
        self.sticky && self.chance(4, 5)
    }
    /// A value which is often the same as the one before.
    pub fn value(&mut self, x: f32) -> f32 {
        if let Some(n) = self.novel {
            if !n.floats.is_empty() && self.chance(1, 8) {
                return *self.pick(&n.floats);
            }
        }
        if !self.sticks() {
            self.last_value = x;
        }
        self.last_value
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Now and then a new literal, or a neighbour of one.
    fn literal(&mut self) -> Option<u64> {
        let ints = &self.novel?.ints;
        if ints.is_empty() || self.u64() % 48 != 0 {
            return None;
        }
        let v = ints[(self.u64() % ints.len() as u64) as usize];
        Some(match self.u64() % 8 {
            0 => v.wrapping_add(1),
            1 => v.saturating_sub(1),
            _ => v,
        })
    }
    pub fn u32(&mut self) -> u32 {
        self.literal().unwrap_or_else(|| self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        self.literal().unwrap_or_else(|| self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        self.literal().unwrap_or_else(|| self.u64() >> 56) as u8
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        if n > 8 {
            if let Some(v) = self.literal() {
                if v < n as u64 {
                    return v as usize;
                }
            }
        }
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// User data: random, constant, periodic or text.
    pub fn data(&mut self, n: usize) -> Vec<u8> {
        if n <= 16 && self.sticks() && self.bool() {
            // once more the same, as far as it fits
            let mut d = self.last_data.clone();
            d.resize(n, 0);
            return d;
        }
        let mut d = self.new_data(n);
        if let Some(x) = self.novel {
            if !x.texts.is_empty() && self.chance(1, 6) {
                let t = self.pick(&x.texts).clone();
                if t.len() <= n {
                    let at = if self.bool() { 0 } else { self.below(n - t.len() + 1) };
                    d[at..at + t.len()].copy_from_slice(&t);
                }
            }
        }
        if n <= 16 {
            self.last_data.clone_from(&d);
        }
        d
    }
    fn new_data(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => vec![*self.pick(&[0, 0xFF, 0x20, 0x0D, 0x11, 0x13, 7]); n],
            1 => vec![self.u8(); n],
            2 => {
                let k = *self.pick(&[2, 3, 6, 7, 14, 28]);
                let p = self.bytes(k);
                (0..n).map(|i| p[i % k]).collect()
            }
            3 => (0..n).map(|i| b"AT+CMD=\"0\"\r\n\0\0\x11\x13"[(i + n) % 16]).collect(),
            4 => {
                // mostly filler
                (0..n).map(|_| if self.chance(1, 9) { self.u8() } else { 0 }).collect()
            }
            _ => self.bytes(n),
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// A word with a bias to boundary values and literals of the code.
    pub fn word(&mut self, lits: &[u64]) -> u16 {
        if self.sticks() {
            // the same as before, or something close
            return match self.below(12) {
                0 => self.last_word.wrapping_neg(),
                1 => self.last_word.wrapping_add(1),
                2 => self.last_word.swap_bytes(),
                3 => !self.last_word,
                _ => self.last_word,
            };
        }
        self.last_word = self.new_word(lits);
        self.last_word
    }
    fn new_word(&mut self, lits: &[u64]) -> u16 {
        match self.below(8) {
            0 => *self.pick(&[
                0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x3FF, 0x4000, 0x6C00, 0x7FFE, 0x7FFF,
                0x8000, 0x8001, 0x9400, 0xC000, 0xFF00, 0xFFFE, 0xFFFF,
            ]),
            1 => 1u16 << self.below(16),
            2 => !(1u16 << self.below(16)),
            3 if !lits.is_empty() => {
                let l = *self.pick(lits);
                let d = self.below(3) as u64;
                (l.wrapping_add(d).wrapping_sub(1)) as u16
            }
            4 => self.u16() & 0xFF,
            _ => self.u16(),
        }
    }
}
