//! Plaintexts that drive the record authenticator into rare states. Whoever knows the session keys can choose
//! ciphertext blocks such that the Poly1305 accumulator takes values a random run meets once in 2^32 or 2^128
//! records: limbs full of zeros or ones, residues next to the modulus, carries through the final addition.
use crate::aead::{cc_block, chacha_xor};
use crate::p256::U256;

/// 2^130 - 5
const P: U256 = U256([0, 3, u64::MAX, u64::MAX - 4]);
const T128: U256 = U256([0, 1, 0, 0]);

fn madd(a: U256, b: U256) -> U256 {
    let s = a.add(b).0;
    if s >= P {
        s.sub(P).0
    } else {
        s
    }
}
fn msub(a: U256, b: U256) -> U256 {
    if a >= b {
        a.sub(b).0
    } else {
        a.add(P).0.sub(b).0
    }
}
fn mmul(a: U256, b: U256) -> U256 {
    let mut r = U256::ZERO;
    for i in (0..131).rev() {
        r = madd(r, r);
        if b.bit(i) {
            r = madd(r, a);
        }
    }
    r
}
fn minv(a: U256) -> U256 {
    // a^(p-2)
    let e = P.sub(U256::from_u64(2)).0;
    let mut r = U256::from_u64(1);
    for i in (0..130).rev() {
        r = mmul(r, r);
        if e.bit(i) {
            r = mmul(r, a);
        }
    }
    r
}
fn reduce(mut a: U256) -> U256 {
    while a >= P {
        a = a.sub(P).0
    }
    a
}
fn block(b: &[u8]) -> U256 {
    let mut v = [0u8; 32];
    v[..b.len()].copy_from_slice(b);
    U256::from_le(&v)
}
fn shl(x: u64, n: usize) -> U256 {
    let mut r = U256::from_u64(x);
    for _ in 0..n {
        r = r.add(r).0
    }
    r
}

/// a residue from the rare corners; `s` is the value added to it at the very end
fn target(rnd: &mut dyn FnMut() -> u64, s: U256, fin: bool) -> U256 {
    let kind = rnd() % if fin { 8 } else { 6 };
    match kind {
        0 => U256::from_u64(rnd() % 8),
        1 => P.sub(U256::from_u64(1 + rnd() % 8)).0,
        2 | 3 => {
            // 26-bit limbs
            let m = (1u64 << 26) - 1;
            let mut r = U256::ZERO;
            for i in 0..5 {
                let x = match rnd() % 6 {
                    0 => 0,
                    1 | 2 => m,
                    3 => m - rnd() % 5,
                    4 => rnd() % 3,
                    _ => rnd() & m,
                };
                r = r.add(shl(x, 26 * i)).0
            }
            reduce(r)
        }
        4 | 5 => {
            // 32-bit limbs
            let mut r = shl(rnd() % 4, 128);
            for i in 0..4 {
                let x = match rnd() % 5 {
                    0 => 0,
                    1 | 2 => 0xffff_ffff,
                    3 => 0xffff_ffff - rnd() % 5,
                    _ => rnd() & 0xffff_ffff,
                };
                r = r.add(shl(x, 32 * i)).0
            }
            reduce(r)
        }
        _ => {
            // h + s has words of ones, or wraps just so
            let mut w = U256::ZERO;
            for i in 0..4 {
                let x = match rnd() % 4 {
                    0 => 0,
                    1 => rnd() % 3,
                    2 => 0xffff_ffff,
                    _ => 0xffff_ffff - rnd() % 3,
                };
                w = w.add(shl(x, 32 * i)).0
            }
            // (w - s) mod 2^128, plus any multiple of 2^128
            let d = w.add(T128).0.sub(s).0;
            let d = U256([0, 0, d.0[2], d.0[3]]);
            reduce(d.add(shl(rnd() % 4, 128)).0)
        }
    }
}

/// `len` bytes of plaintext whose record under this key, nonce and additional data passes through corner states
pub fn steer(key: &[u8; 32], nonce: &[u8; 12], ad: &[u8], len: usize, rnd: &mut dyn FnMut() -> u64) -> Vec<u8> {
    let k = cc_block(key, 0, nonce);
    let mut r = [0u8; 16];
    r.copy_from_slice(&k[..16]);
    for i in [3, 7, 11, 15] {
        r[i] &= 15
    }
    for i in [4, 8, 12] {
        r[i] &= 252
    }
    let r = block(&r);
    let s = block(&k[16..32]);
    let mut ct: Vec<u8> = Vec::with_capacity(len + 16);
    while ct.len() < len {
        ct.extend_from_slice(&rnd().to_le_bytes())
    }
    ct.truncate(len);
    if r != U256::ZERO {
        let rinv = minv(r);
        let mut lens = (ad.len() as u64).to_le_bytes().to_vec();
        lens.extend_from_slice(&(len as u64).to_le_bytes());
        let lens = block(&lens).add(T128).0;
        let mut h = U256::ZERO;
        for c in ad.chunks(16) {
            h = mmul(madd(h, reduce(block(c).add(T128).0)), r);
        }
        let full = len / 16;
        // long records: only some blocks, the last ones among them
        for i in 0..len.div_ceil(16) {
            let last = i + 1 == full && len % 16 == 0;
            let range = 16 * i..(16 * i + 16).min(len);
            if i < full && (i < 12 || i + 6 > full) {
                for _ in 0..24 {
                    let pre = !last && rnd() % 4 == 0;
                    let t = target(rnd, s, last);
                    let want = if last {
                        // the sum that makes the tag's residue t once the length block went in
                        let before = msub(mmul(t, rinv), lens);
                        msub(mmul(before, rinv), h)
                    } else if pre {
                        msub(t, h)
                    } else {
                        msub(mmul(t, rinv), h)
                    };
                    let b = msub(want, T128);
                    if b < T128 {
                        let mut le = b.to_be();
                        le.reverse();
                        ct[range.clone()].copy_from_slice(&le[..16]);
                        break;
                    }
                }
            }
            h = mmul(madd(h, reduce(block(&ct[range]).add(T128).0)), r);
        }
    }
    chacha_xor(key, nonce, &ct)
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn arithmetic() {
        let a = shl(0x1234_5678_9abc, 77);
        assert_eq!(mmul(reduce(a), minv(reduce(a))), U256::from_u64(1));
        // 2^130 = 5
        assert_eq!(mmul(shl(1, 65), shl(1, 65)), U256::from_u64(5));
    }
    #[test]
    fn tags() {
        // the tag's residue is as wanted: with t = 0..7 the tag is s + t
        let mut x = 1u64;
        let mut rnd = move || {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            x >> 20
        };
        let (mut small, mut n) = (0, 0);
        for i in 0..400u32 {
            let mut key = [7u8; 32];
            key[..4].copy_from_slice(&i.to_le_bytes());
            let pt = steer(&key, &[1; 12], &[2; 13], 32, &mut rnd);
            let sealed = crate::seal(&key, &[1; 12], &[2; 13], &pt);
            let k = cc_block(&key, 0, &[1; 12]);
            let s = block(&k[16..32]);
            let t = block(&sealed[32..48]);
            let d = t.add(T128).0.sub(s).0;
            n += 1;
            if d.0[1] & 0 == 0 && d.0[2] == 0 && d.0[3] < 16 {
                small += 1
            }
        }
        assert!(small > n / 20, "{} of {}", small, n);
    }
}
