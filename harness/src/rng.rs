//! xoshiro256** seeded through splitmix64; no external dependency, same stream in every build.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// the last numbers handed out
    memo: [i64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h, u64::from_le_bytes(c.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    let r = it.remainder();
    last[..r.len()].copy_from_slice(r);
    mix(mix(h, u64::from_le_bytes(last)), b.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)], memo: [0; 4] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    /// true with probability num/256
    pub fn p(&mut self, num: u32) -> bool {
        (self.u64() >> 56) < num as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// integers with emphasis on boundaries of every varint length and of every width, some of
    /// them related to earlier ones
    pub fn int(&mut self, bits: u32) -> i64 {
        let v = match self.below(40) {
            0 => {
                let m = *self.pick(&self.memo.clone());
                let v = match self.below(6) {
                    0 => m.wrapping_add(self.range(-2, 2)),
                    1 => m.wrapping_neg(),
                    2 => m.wrapping_mul(2),
                    3 => m.wrapping_add(self.memo[0]),
                    _ => m,
                };
                (v << (64 - bits)) >> (64 - bits)
            }
            _ => self.fresh_int(bits),
        };
        self.memo.rotate_right(1);
        self.memo[0] = v;
        v
    }
    fn fresh_int(&mut self, bits: u32) -> i64 {
        if self.p(14) {
            if let Some(x) = self.known(u64::MAX >> (64 - bits)) {
                let v = if self.p(170) { x as i64 } else { (x as i64).wrapping_neg() };
                return (v << (64 - bits)) >> (64 - bits);
            }
        }
        let v = match self.below(10) {
            0 => self.range(-2, 2),
            1 => self.range(-70, 70),
            2..=5 => {
                let k = self.below(bits as u64) as u32;
                let base = (1u64 << k) as i64;
                let d = self.range(-2, 2);
                let x = base.wrapping_add(d);
                if self.p(128) { x } else { x.wrapping_neg() }
            }
            6 => match self.below(4) {
                0 => i64::MAX >> (64 - bits),
                1 => i64::MIN >> (64 - bits),
                2 => (i64::MAX >> (64 - bits)) - 1,
                _ => (i64::MIN >> (64 - bits)) + 1,
            },
            7 => {
                let sh = self.below(bits as u64) as u32;
                (self.u64() >> (64 - bits) >> sh) as i64
            }
            _ => self.u64() as i64,
        };
        // sign-extend from `bits`
        (v << (64 - bits)) >> (64 - bits)
    }
}

/// Numbers and texts that occur in the code under test (VMON_DICT, see check.py). They only direct
/// the generators to values the code may treat specially; no verdict depends on them.
pub struct Dict {
    /// sorted: those the usual ones lack, and all
    nums: [Vec<u64>; 2],
    strs: [Vec<Vec<u8>>; 2],
    floats: Vec<u64>,
}

pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { nums: [vec![], vec![]], strs: [vec![], vec![]], floats: vec![] };
        for part in std::env::var("VMON_DICT").unwrap_or_default().split(',') {
            let (k, rest) = part.split_at(part.len().min(1));
            let text = || {
                (0..rest.len() / 2).map(|i| u8::from_str_radix(rest.get(2 * i..2 * i + 2)?, 16).ok()).collect::<Option<Vec<u8>>>()
            };
            match k {
                "n" | "N" => {
                    if let Ok(x) = rest.parse::<u64>() {
                        d.nums[1].push(x);
                        if k == "N" {
                            d.nums[0].push(x);
                        }
                    }
                }
                "s" | "S" => {
                    if let Some(x) = text() {
                        if k == "S" {
                            d.strs[0].push(x.clone());
                        }
                        d.strs[1].push(x);
                    }
                }
                "f" => {
                    if let Ok(x) = rest.parse::<f64>() {
                        d.floats.push(x.to_bits());
                    }
                }
                _ => {}
            }
        }
        d.nums[0].sort();
        d.nums[1].sort();
        d
    })
}

impl Rng {
    /// a number that occurs in the code, or one next to it, up to `max`
    pub fn known(&mut self, max: u64) -> Option<u64> {
        let d = dict();
        let pick = self.p(180);
        for (i, l) in d.nums.iter().enumerate() {
            let n = l.partition_point(|x| *x <= max);
            if n > 0 && (i == 1 || pick) {
                let x = l[self.idx(n)];
                let x = match self.below(6) {
                    0 => x.wrapping_add(1),
                    1 => x.wrapping_sub(1),
                    2 if x < 1 << 40 => x * self.range(1, 4) as u64 + self.below(2),
                    _ => x,
                };
                return (x <= max).then_some(x);
            }
        }
        None
    }
    /// a text that occurs in the code
    pub fn known_str(&mut self) -> Option<&'static str> {
        (0..4).find_map(|_| std::str::from_utf8(self.known_bytes()?).ok())
    }
    /// a text or a piece of binary data that occurs in the code
    pub fn known_bytes(&mut self) -> Option<&'static [u8]> {
        let d = dict();
        let l = if d.strs[0].is_empty() || self.p(60) { &d.strs[1] } else { &d.strs[0] };
        if l.is_empty() { None } else { Some(&l[self.idx(l.len())]) }
    }
    pub fn known_f64(&mut self) -> Option<u64> {
        let l = &dict().floats;
        if l.is_empty() { None } else { Some(l[self.idx(l.len())]) }
    }
}
