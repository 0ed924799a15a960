//! SplitMix64-based generator; the only source of randomness in plan generation.
#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut s = 0x1234_5678_9abc_def0;
        for p in parts {
            s = mix(s ^ mix(*p));
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true once in n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// log-uniform size in 0..=max: small values are as likely as large ones
    pub fn size(&mut self, max: u64) -> u64 {
        if max == 0 {
            return 0;
        }
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let lo = 1u64 << (b - 1);
        let hi = ((lo << 1) - 1).min(max);
        self.range(lo.min(hi), hi)
    }
}

/// The byte at offset `off` of the pseudo-random stream named `key`; what application and peer send.
pub fn stream_byte(key: u64, off: u64) -> u8 {
    (mix(key ^ (off >> 3).wrapping_mul(0xd1342543de82ef95)) >> ((off & 7) * 8)) as u8
}

pub fn stream(key: u64, off: u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut o = off;
    let end = off + n as u64;
    while o < end {
        let w = mix(key ^ (o >> 3).wrapping_mul(0xd1342543de82ef95)).to_le_bytes();
        let mut i = (o & 7) as usize;
        while i < 8 && o < end {
            v.push(w[i]);
            i += 1;
            o += 1;
        }
    }
    v
}

/// Application data of a given character, as a function of its offset.
pub fn content(mode: u8, key: u64, off: u64, n: usize) -> Vec<u8> {
    let cycle: &[u8] = match mode {
        1 => &[0],
        2 => &[0xff],
        // like a fatal alert, like close_notify, like both
        3 => &[1, 0],
        4 => &[2, 0],
        5 => &[21, 3, 3, 0, 2, 1, 0],
        // like records and messages of the protocol
        6 => &[23, 3, 3, 0, 1, 65, 20, 3, 3, 0, 1, 1],
        7 => &[20, 0, 0, 12, 0, 0, 0, 0],
        8 => b"GET / HTTP/1.1\r\nHost: example\r\n\r\n",
        9 => &[0, 0, 0, 0, 0, 0, 0, 1],
        10 => &[0xff, 0xff, 0xff, 0xfb, 0xff],
        _ => return stream(key, off, n),
    };
    (off..off + n as u64).map(|o| cycle[(o % cycle.len() as u64) as usize]).collect()
}

/// FNV-style 64-bit running hash for traces.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H {
        H(0xcbf29ce484222325)
    }
    pub fn add(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x.wrapping_mul(0x9e3779b97f4a7c15));
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.add(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let mut last = [0u8; 8];
        last[..it.remainder().len()].copy_from_slice(it.remainder());
        self.add(u64::from_le_bytes(last));
        self.add(b.len() as u64);
    }
}
