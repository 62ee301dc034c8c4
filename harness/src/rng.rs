//! Deterministic generator of cases: xoshiro256** plus "interesting" integers, lengths and bytes.
//! Literals found in the sources under test are mixed in (an automatic dictionary, as fuzzers use):
//! they only steer generation, they never take part in a verdict.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &c in b {
        h = (h ^ u64::from(c)).wrapping_mul(0x0100_0000_01b3);
    }
    mix(h)
}

/// Characters at the edges of the encodings, and ones which case mapping, trimming,
/// normalising or escaping treats in a special way.
const EDGE_CHARS: &[char] = &[
    '\0', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{df}', '\u{ff}', '\u{130}', '\u{131}', '\u{17f}', '\u{1c5}', '\u{301}',
    '\u{3c2}', '\u{660}', '\u{7ff}', '\u{800}', '\u{1e9e}', '\u{200b}', '\u{200e}', '\u{2028}', '\u{202e}', '\u{212a}', '\u{3000}', '\u{d7ff}',
    '\u{e000}', '\u{fb01}', '\u{feff}', '\u{ff11}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1d7d8}', '\u{1f600}', '\u{10ffff}',
];

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<i128>,
    pub strs: Vec<Vec<u8>>,
    /// those that the sources did not have when the harness was written: tried more often
    pub fresh_ints: Vec<i128>,
    pub fresh_strs: Vec<Vec<u8>>,
}

pub struct Gen {
    s: [u64; 4],
    pub dict: std::rc::Rc<Dict>,
    /// 0 = micro (Miri), 1 = quick, 2 = thorough
    pub scale: u8,
}

impl Gen {
    pub fn new(seed: u64, dict: std::rc::Rc<Dict>, scale: u8) -> Gen {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = mix(x);
            *v = x;
        }
        Gen { s, dict, scale }
    }
    /// another generator, with this seed
    pub fn seeded(&self, seed: u64) -> Gen {
        Gen::new(seed, self.dict.clone(), self.scale)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0, "below(0)");
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0; N];
        a.copy_from_slice(&self.bytes(N));
        a
    }

    /// A literal of the sources.
    pub fn dict_int(&mut self) -> i128 {
        let d = self.dict.clone();
        if !d.fresh_ints.is_empty() && (self.bool() || d.ints.is_empty()) {
            return *self.pick(&d.fresh_ints);
        }
        if d.ints.is_empty() { 0 } else { *self.pick(&d.ints) }
    }
    pub fn dict_str(&mut self) -> Vec<u8> {
        let d = self.dict.clone();
        if !d.fresh_strs.is_empty() && (self.bool() || d.strs.is_empty()) {
            return self.pick(&d.fresh_strs).clone();
        }
        if d.strs.is_empty() { vec![] } else { self.pick(&d.strs).clone() }
    }
    /// A byte: sometimes the low byte of a literal, or a literal character.
    pub fn byte(&mut self) -> u8 {
        match self.below(6) {
            0 => self.dict_int() as u8,
            1 => self.dict_str().first().copied().unwrap_or(0),
            2 => *self.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xfe]),
            _ => self.u64() as u8,
        }
    }

    /// Sizes worth a case of their own, `lo` to `hi`: new literals of the sources, other literals, powers.
    pub fn sizes(&self, lo: usize, hi: usize) -> Vec<usize> {
        let mut v: Vec<i128> = self.dict.fresh_ints.clone();
        v.extend(self.dict.ints.iter());
        v.extend((4..40).map(|k| 1i128 << k));
        v.extend((2..10).map(|k| 10i128.pow(k)));
        let mut seen = std::collections::HashSet::new();
        v.into_iter().filter(|&x| x >= lo as i128 && x <= hi as i128 && seen.insert(x)).map(|x| x as usize).collect()
    }
    /// The size for case `k` of a sweep over `sizes`, with its neighbours; then random ones.
    pub fn sweep(&mut self, k: usize, lo: usize, hi: usize) -> usize {
        let v = self.sizes(lo, hi);
        match v.get(k / 3) {
            Some(&n) => n + 1 - k % 3,
            None => {
                let top = usize::BITS - hi.leading_zeros();
                let bits = self.range(1, top as usize);
                let n = self.range(1, 1 << bits);
                n.clamp(lo, hi)
            }
        }
    }

    /// Any integer, biased to boundaries.
    pub fn wide(&mut self) -> i128 {
        let jitter = self.below(5) as i128 - 2;
        let sign = if self.bool() { 1 } else { -1 };
        match self.below(12) {
            0 | 1 => sign * self.below(20) as i128,
            2 => sign * self.below(1000) as i128,
            3 => sign * (1i128 << self.below(66)) + jitter,
            4 => sign * 10i128.pow(self.below(21) as u32) + jitter,
            5 => i64::MAX as i128 + jitter,
            6 => i64::MIN as i128 + jitter,
            7 => {
                // any digit count
                let d = self.range(1, 19) as u32;
                sign * (u128::from(self.u64()) % 10u128.pow(d)) as i128
            }
            8 | 9 if !self.dict.ints.is_empty() => self.dict_int() + if self.bool() { 0 } else { jitter },
            10 => sign * (u128::from(self.u64()) >> self.below(64)) as i128,
            _ => i128::from(self.u64() as i64),
        }
    }
    pub fn int(&mut self) -> i64 {
        loop {
            let w = self.wide();
            if w >= i64::MIN as i128 && w <= i64::MAX as i128 {
                return w as i64;
            }
        }
    }
    pub fn usize_any(&mut self) -> usize {
        match self.below(8) {
            0 => usize::MAX - self.below(3),
            _ => self.wide() as usize,
        }
    }
    /// A length up to `max`: mostly small, often at a boundary.
    pub fn len(&mut self, max: usize) -> usize {
        let n = match self.below(10) {
            0 => 0,
            1 | 2 | 3 => self.below(max.min(8) + 1),
            4 | 5 => self.below(max.min(64) + 1),
            6 => {
                let b = 1usize << self.below(20);
                (b + self.below(3)).saturating_sub(1)
            }
            7 => {
                let b = 10usize.pow(self.below(6) as u32);
                (b + self.below(3)).saturating_sub(1)
            }
            8 if !self.dict.ints.is_empty() => {
                let v = self.dict_int() + self.below(3) as i128 - 1;
                if v >= 0 && v <= max as i128 {
                    v as usize
                } else {
                    self.below(max.min(300) + 1)
                }
            }
            _ => self.below(max + 1),
        };
        if n > max {
            self.below(max + 1)
        } else {
            n
        }
    }
    /// Byte strings of very different kinds.
    pub fn blob(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        match self.below(10) {
            0 | 1 => self.bytes(n),
            8 if n > 0 => {
                // all but UTF-8: one byte is wrong, often the last
                let mut s: Vec<u8> = (0..n).map(|_| self.range(0x20, 0x7e) as u8).collect();
                let k = if self.bool() { n - 1 } else { self.below(n) };
                s[k] = *self.pick(&[0x80u8, 0xbf, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xf8, 0xff]);
                s
            }
            2 => (0..n).map(|_| self.range(0x20, 0x7e) as u8).collect(),
            3 => (0..n).map(|_| *b"ilde0123456789:-".get(self.below(16)).unwrap()).collect(),
            4 => vec![*self.pick(&[0u8, 0xff, b'e', b'0', b'\n', 0x80, b' ']); n],
            5 | 6 => {
                let mut s = self.text(n).into_bytes();
                s.truncate(max);
                while std::str::from_utf8(&s).is_err() {
                    s.pop();
                }
                s
            }
            7 if !self.dict.strs.is_empty() => {
                let mut s = self.dict_str();
                match self.below(8) {
                    0 => s.extend(self.bytes(2)),
                    1 => s.extend(self.dict_str()),
                    2 => {
                        let n = self.below(9);
                        let mut p: Vec<u8> = (0..n).map(|_| self.range(0x20, 0x7e) as u8).collect();
                        p.extend(s);
                        s = p;
                    }
                    3 => {
                        // a text over two literals and one more character
                        let (a, b) = (self.dict_str(), self.dict_str());
                        s.clear();
                        for _ in 0..n.min(12) {
                            match self.below(3) {
                                0 => s.extend(&a),
                                1 => s.extend(&b),
                                _ => s.push(self.range(0x20, 0x7e) as u8),
                            }
                        }
                    }
                    _ => {}
                }
                s.truncate(max);
                s
            }
            _ => (0..n).map(|_| b'a' + self.below(26) as u8).collect(),
        }
    }
    pub fn char(&mut self) -> char {
        match self.below(12) {
            0..=4 => self.range(0x20, 0x7e) as u8 as char,
            5 => self.below(0x80) as u8 as char,
            10 => self.below(0x21) as u8 as char,
            11 => *self.pick(EDGE_CHARS),
            6 => char::from_u32(self.range(0x80, 0x7ff) as u32).unwrap(),
            7 => char::from_u32(self.range(0x800, 0xd7ff) as u32).unwrap(),
            8 => char::from_u32(self.range(0xe000, 0xffff) as u32).unwrap(),
            _ => char::from_u32(self.range(0x10000, 0x10ffff) as u32).unwrap(),
        }
    }
    /// Text of `n` characters.
    pub fn text(&mut self, n: usize) -> String {
        match self.below(5) {
            0 => (0..n).map(|_| self.char()).collect(),
            4 => (0..n).map(|_| self.below(0x80) as u8 as char).collect(),
            1 => (0..n).map(|_| (b'a' + self.below(3) as u8) as char).collect(),
            _ => (0..n).map(|_| self.range(0x20, 0x7e) as u8 as char).collect(),
        }
    }
    /// Short text, often a literal of the sources.
    pub fn word(&mut self, max: usize) -> String {
        if self.one_in(4) && !self.dict.strs.is_empty() {
            if let Ok(s) = String::from_utf8(self.dict_str()) {
                if s.len() <= max {
                    return s;
                }
            }
        }
        let n = self.len(max.min(40));
        self.text(n).chars().take(max / 4 + 1).collect()
    }
}
