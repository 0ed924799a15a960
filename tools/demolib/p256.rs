//! NIST P-256 with 4x64-bit Montgomery arithmetic and Jacobian coordinates. Variable time; reference only.

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct U256(pub [u64; 4]); // most significant limb first, so derived Ord is numeric

impl U256 {
    pub const ZERO: U256 = U256([0; 4]);
    pub fn from_u64(x: u64) -> U256 {
        U256([0, 0, 0, x])
    }
    pub fn from_be(b: &[u8]) -> U256 {
        let mut o = [0u64; 4];
        for i in 0..4 {
            o[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        U256(o)
    }
    pub fn from_le(b: &[u8]) -> U256 {
        let mut v = b.to_vec();
        v.reverse();
        U256::from_be(&v)
    }
    pub fn to_be(self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_be_bytes());
        }
        o
    }
    pub fn add(self, b: U256) -> (U256, bool) {
        let mut o = [0u64; 4];
        let mut c = 0u128;
        for i in (0..4).rev() {
            c += self.0[i] as u128 + b.0[i] as u128;
            o[i] = c as u64;
            c >>= 64;
        }
        (U256(o), c != 0)
    }
    pub fn sub(self, b: U256) -> (U256, bool) {
        let mut o = [0u64; 4];
        let mut br = false;
        for i in (0..4).rev() {
            let (x, b1) = self.0[i].overflowing_sub(b.0[i]);
            let (x, b2) = x.overflowing_sub(br as u64);
            o[i] = x;
            br = b1 | b2;
        }
        (U256(o), br)
    }
    pub fn bit(self, i: usize) -> bool {
        self.0[3 - i / 64] >> (i % 64) & 1 == 1
    }
}

pub const P: U256 = U256([0xffffffff00000001, 0, 0x00000000ffffffff, 0xffffffffffffffff]);
pub const N: U256 = U256([0xffffffff00000000, 0xffffffffffffffff, 0xbce6faada7179e84, 0xf3b9cac2fc632551]);
const B: U256 = U256([0x5ac635d8aa3a93e7, 0xb3ebbd55769886bc, 0x651d06b0cc53b0f6, 0x3bce3c3e27d2604b]);
const GX: U256 = U256([0x6b17d1f2e12c4247, 0xf8bce6e563a440f2, 0x77037d812deb33a0, 0xf4a13945d898c296]);
const GY: U256 = U256([0x4fe342e2fe1a7f9b, 0x8ee7eb4a7c0f9e16, 0x2bce33576b315ece, 0xcbb6406837bf51f5]);

// Field elements in Montgomery form, least significant limb first.
type Fe = [u64; 4];
const PL: Fe = [0xffffffffffffffff, 0x00000000ffffffff, 0, 0xffffffff00000001];

fn geq(a: &Fe, b: &Fe) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn raw_sub(a: &Fe, b: &Fe) -> (Fe, bool) {
    let mut o = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br as u64);
        o[i] = x;
        br = b1 | b2;
    }
    (o, br)
}
fn raw_add(a: &Fe, b: &Fe) -> (Fe, bool) {
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    (o, c != 0)
}
fn fadd(a: &Fe, b: &Fe) -> Fe {
    let (s, c) = raw_add(a, b);
    if c || geq(&s, &PL) {
        raw_sub(&s, &PL).0
    } else {
        s
    }
}
fn fsub(a: &Fe, b: &Fe) -> Fe {
    let (d, br) = raw_sub(a, b);
    if br {
        raw_add(&d, &PL).0
    } else {
        d
    }
}
fn fmul(a: &Fe, b: &Fe) -> Fe {
    // CIOS Montgomery; -p^-1 mod 2^64 == 1
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += t[j] as u128 + a[j] as u128 * b[i] as u128;
            t[j] = c as u64;
            c >>= 64;
        }
        c += t[4] as u128;
        t[4] = c as u64;
        t[5] = (c >> 64) as u64;
        let m = t[0];
        let mut c = t[0] as u128 + m as u128 * PL[0] as u128;
        c >>= 64;
        for j in 1..4 {
            c += t[j] as u128 + m as u128 * PL[j] as u128;
            t[j - 1] = c as u64;
            c >>= 64;
        }
        c += t[4] as u128;
        t[3] = c as u64;
        t[4] = t[5] + (c >> 64) as u64;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &PL) {
        raw_sub(&r, &PL).0
    } else {
        r
    }
}
fn fsq(a: &Fe) -> Fe {
    fmul(a, a)
}
// 2^512 mod p
const R2: Fe = [0x0000000000000003, 0xfffffffbffffffff, 0xfffffffffffffffe, 0x00000004fffffffd];
fn to_m(x: U256) -> Fe {
    fmul(&[x.0[3], x.0[2], x.0[1], x.0[0]], &R2)
}
fn from_m(a: &Fe) -> U256 {
    let r = fmul(a, &[1, 0, 0, 0]);
    U256([r[3], r[2], r[1], r[0]])
}
fn one() -> Fe {
    to_m(U256::from_u64(1))
}
fn fpow(a: &Fe, e: U256) -> Fe {
    let mut r = one();
    for i in (0..256).rev() {
        r = fsq(&r);
        if e.bit(i) {
            r = fmul(&r, a);
        }
    }
    r
}
fn finv(a: &Fe) -> Fe {
    fpow(a, P.sub(U256::from_u64(2)).0)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Affine {
    pub x: U256,
    pub y: U256,
}

#[derive(Clone, Copy)]
struct Jac {
    x: Fe,
    y: Fe,
    z: Fe,
}

impl Jac {
    fn inf() -> Jac {
        Jac { x: one(), y: one(), z: [0; 4] }
    }
    fn is_inf(&self) -> bool {
        self.z == [0; 4]
    }
    fn dbl(&self) -> Jac {
        if self.is_inf() {
            return *self;
        }
        // dbl-2001-b
        let delta = fsq(&self.z);
        let gamma = fsq(&self.y);
        let beta = fmul(&self.x, &gamma);
        let t = fmul(&fsub(&self.x, &delta), &fadd(&self.x, &delta));
        let alpha = fadd(&fadd(&t, &t), &t);
        let b2 = fadd(&beta, &beta);
        let b4 = fadd(&b2, &b2);
        let b8 = fadd(&b4, &b4);
        let x3 = fsub(&fsq(&alpha), &b8);
        let z3 = fsub(&fsub(&fsq(&fadd(&self.y, &self.z)), &gamma), &delta);
        let g2 = fsq(&gamma);
        let g2 = fadd(&g2, &g2);
        let g4 = fadd(&g2, &g2);
        let g8 = fadd(&g4, &g4);
        let y3 = fsub(&fmul(&alpha, &fsub(&b4, &x3)), &g8);
        Jac { x: x3, y: y3, z: z3 }
    }
    fn add(&self, o: &Jac) -> Jac {
        if self.is_inf() {
            return *o;
        }
        if o.is_inf() {
            return *self;
        }
        let z1z1 = fsq(&self.z);
        let z2z2 = fsq(&o.z);
        let u1 = fmul(&self.x, &z2z2);
        let u2 = fmul(&o.x, &z1z1);
        let s1 = fmul(&fmul(&self.y, &o.z), &z2z2);
        let s2 = fmul(&fmul(&o.y, &self.z), &z1z1);
        let h = fsub(&u2, &u1);
        let r = fsub(&s2, &s1);
        if h == [0; 4] {
            return if r == [0; 4] { self.dbl() } else { Jac::inf() };
        }
        let hh = fsq(&h);
        let hhh = fmul(&h, &hh);
        let v = fmul(&u1, &hh);
        let x3 = fsub(&fsub(&fsq(&r), &hhh), &fadd(&v, &v));
        let y3 = fsub(&fmul(&r, &fsub(&v, &x3)), &fmul(&s1, &hhh));
        let z3 = fmul(&fmul(&self.z, &o.z), &h);
        Jac { x: x3, y: y3, z: z3 }
    }
}

impl Affine {
    pub fn g() -> Affine {
        Affine { x: GX, y: GY }
    }
    pub fn on_curve(&self) -> bool {
        if self.x >= P || self.y >= P {
            return false;
        }
        rhs(self.x) == fsq(&to_m(self.y))
    }
    /// A point with the given x (< p), if there is one.
    pub fn lift_x(x: U256, odd: bool) -> Option<Affine> {
        if x >= P {
            return None;
        }
        let r = rhs(x);
        // sqrt = r^((p+1)/4)
        let e = U256([0x3fffffffc0000000, 0x4000000000000000, 0x0000000040000000, 0]);
        let y = fpow(&r, e);
        if fsq(&y) != r {
            return None;
        }
        let mut yi = from_m(&y);
        if yi.bit(0) != odd && yi != U256::ZERO {
            yi = P.sub(yi).0;
        }
        Some(Affine { x, y: yi })
    }
    /// A point that misses the curve by `mask` only: with `moved` false y^2 + 3x and x^3 + B differ in exactly those
    /// bits, with true y^2 and x^3 - 3x + B do.
    pub fn near(x: U256, mask: U256, moved: bool) -> Option<Affine> {
        if x >= P {
            return None;
        }
        let xm = to_m(x);
        let x3 = fadd(&fadd(&xm, &xm), &xm);
        let full = rhs(x);
        let side = from_m(&if moved { full } else { fadd(&full, &x3) });
        let mut m = side;
        for i in 0..4 {
            m.0[i] ^= mask.0[i]
        }
        if m >= P || mask == U256::ZERO {
            return None;
        }
        let m = to_m(m);
        let y2 = if moved { m } else { fsub(&m, &x3) };
        let e = U256([0x3fffffffc0000000, 0x4000000000000000, 0x0000000040000000, 0]);
        let y = fpow(&y2, e);
        if fsq(&y) != y2 {
            return None;
        }
        let a = Affine { x, y: from_m(&y) };
        if a.on_curve() {
            None
        } else {
            Some(a)
        }
    }
    pub fn mul(&self, k: U256) -> Option<Affine> {
        let base = Jac { x: to_m(self.x), y: to_m(self.y), z: one() };
        // 4-bit window
        let mut tab = [Jac::inf(); 16];
        for i in 1..16 {
            tab[i] = tab[i - 1].add(&base);
        }
        let mut r = Jac::inf();
        for i in (0..64).rev() {
            for _ in 0..4 {
                r = r.dbl();
            }
            let mut w = 0;
            for b in 0..4 {
                w |= (k.bit(4 * i + b) as usize) << b;
            }
            r = r.add(&tab[w]);
        }
        if r.is_inf() {
            return None;
        }
        let zi = finv(&r.z);
        let zi2 = fsq(&zi);
        Some(Affine { x: from_m(&fmul(&r.x, &zi2)), y: from_m(&fmul(&r.y, &fmul(&zi2, &zi))) })
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = vec![4];
        v.extend_from_slice(&self.x.to_be());
        v.extend_from_slice(&self.y.to_be());
        v
    }
    pub fn from_bytes(b: &[u8]) -> Option<Affine> {
        if b.len() != 65 || b[0] != 4 {
            return None;
        }
        let a = Affine { x: U256::from_be(&b[1..33]), y: U256::from_be(&b[33..65]) };
        if a.on_curve() {
            Some(a)
        } else {
            None
        }
    }
}

fn rhs(x: U256) -> Fe {
    let xm = to_m(x);
    let x3 = fmul(&fsq(&xm), &xm);
    let t = fadd(&fadd(&xm, &xm), &xm);
    fadd(&fsub(&x3, &t), &to_m(B))
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn basics() {
        assert_eq!(from_m(&one()), U256::from_u64(1));
        assert!(Affine::g().on_curve());
        assert_eq!(Affine::g().mul(U256::from_u64(1)), Some(Affine::g()));
        assert_eq!(Affine::g().mul(N), None);
        let nm1 = Affine::g().mul(N.sub(U256::from_u64(1)).0).unwrap();
        assert_eq!(nm1.x, GX);
        assert_eq!(nm1.y, P.sub(GY).0);
        assert_eq!(Affine::lift_x(GX, true), Some(Affine::g()));
        // NIST CAVS ECDH P-256 count 0
        let h = |s: &str| U256::from_be(&(0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<_>>());
        let q = Affine {
            x: h("700c48f77f56584c5cc632ca65640db91b6bacce3a4df6b42ce7cc838833d287"),
            y: h("db71e509e3fd9b060ddb20ba5c51dcc5948d46fbf640dfe0441782cab85fa4ac"),
        };
        assert!(q.on_curve());
        let d = h("7d7dc5f71eb29ddaf80d6214632eeae03d9058af1fb6d22ed80badb62bc1a534");
        assert_eq!(q.mul(d).unwrap().x, h("46fc62106420ff012e54a434fbdd2d25ccc5852060561e68040dd7778997bd7b"));
    }
}
