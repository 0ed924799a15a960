fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

pub(crate) fn cc_block(key: &[u8; 32], ctr: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    for (i, c) in b"expand 32-byte k".chunks_exact(4).enumerate() {
        s[i] = u32::from_le_bytes(c.try_into().unwrap());
    }
    for (i, c) in key.chunks_exact(4).enumerate() {
        s[4 + i] = u32::from_le_bytes(c.try_into().unwrap());
    }
    s[12] = ctr;
    for (i, c) in nonce.chunks_exact(4).enumerate() {
        s[13 + i] = u32::from_le_bytes(c.try_into().unwrap());
    }
    let init = s;
    for _ in 0..10 {
        for i in 0..4 {
            qr(&mut s, i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            qr(&mut s, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}

/// XOR with the keystream that encrypts record content (block counter starts at 1).
pub fn chacha_xor(key: &[u8; 32], nonce: &[u8; 12], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    for (i, ch) in data.chunks(64).enumerate() {
        let ks = cc_block(key, 1 + i as u32, nonce);
        out.extend(ch.iter().zip(ks.iter()).map(|(a, b)| a ^ b));
    }
    out
}

/// Poly1305 with three 64-bit limbs (h < 2^131) and schoolbook 128-bit products.
fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    let le = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
    let r0 = le(&key[0..8]) & 0x0ffffffc0fffffff;
    let r1 = le(&key[8..16]) & 0x0ffffffc0ffffffc;
    let (mut h0, mut h1, mut h2) = (0u64, 0u64, 0u64);
    for ch in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..ch.len()].copy_from_slice(ch);
        b[ch.len()] = 1;
        let t = h0 as u128 + le(&b[0..8]) as u128;
        h0 = t as u64;
        let t = h1 as u128 + le(&b[8..16]) as u128 + (t >> 64);
        h1 = t as u64;
        h2 = h2 + b[16] as u64 + (t >> 64) as u64;
        // (h0 + h1 2^64 + h2 2^128) * (r0 + r1 2^64)
        let m = |a: u64, b: u64| a as u128 * b as u128;
        let d0 = m(h0, r0);
        let a1 = m(h0, r1);
        let b1 = m(h1, r0);
        let a2 = m(h1, r1);
        let b2 = m(h2, r0); // h2 <= 7
        let d3 = m(h2, r1);
        let l0 = d0 as u64;
        let s1 = (d0 >> 64) + (a1 as u64) as u128 + (b1 as u64) as u128;
        let l1 = s1 as u64;
        let s2 = (s1 >> 64) + (a1 >> 64) + (b1 >> 64) + (a2 as u64) as u128 + (b2 as u64) as u128;
        let l2 = s2 as u64;
        let s3 = (s2 >> 64) + (a2 >> 64) + (b2 >> 64) + d3;
        let l3 = s3 as u64; // fits: product < 2^131 * 2^124
        // reduce mod 2^130 - 5: low = bits < 130, high = rest; h = low + 5 * high
        let lo2 = l2 & 3;
        let hi0 = (l2 >> 2) | (l3 << 62);
        let hi1 = l3 >> 2;
        let t = l0 as u128 + hi0 as u128 * 5;
        h0 = t as u64;
        let t = l1 as u128 + hi1 as u128 * 5 + (t >> 64);
        h1 = t as u64;
        h2 = lo2 + (t >> 64) as u64;
    }
    // full reduction
    for _ in 0..2 {
        let c = h2 >> 2;
        h2 &= 3;
        let t = h0 as u128 + c as u128 * 5;
        h0 = t as u64;
        let t = h1 as u128 + (t >> 64);
        h1 = t as u64;
        h2 += (t >> 64) as u64;
    }
    let t = h0 as u128 + 5;
    let g0 = t as u64;
    let t = h1 as u128 + (t >> 64);
    let g1 = t as u64;
    let g2 = h2 + (t >> 64) as u64;
    if g2 >> 2 != 0 {
        h0 = g0;
        h1 = g1;
    }
    let t = h0 as u128 + le(&key[16..24]) as u128;
    let o0 = t as u64;
    let t = h1 as u128 + le(&key[24..32]) as u128 + (t >> 64);
    let o1 = t as u64;
    let mut out = [0u8; 16];
    out[..8].copy_from_slice(&o0.to_le_bytes());
    out[8..].copy_from_slice(&o1.to_le_bytes());
    out
}

fn tag(key: &[u8; 32], nonce: &[u8; 12], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let k: [u8; 32] = cc_block(key, 0, nonce)[..32].try_into().unwrap();
    let mut m = ad.to_vec();
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(ct);
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(&(ad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&k, &m)
}

pub fn seal(key: &[u8; 32], nonce: &[u8; 12], ad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut ct = chacha_xor(key, nonce, pt);
    let t = tag(key, nonce, ad, &ct);
    ct.extend_from_slice(&t);
    ct
}

pub fn open(key: &[u8; 32], nonce: &[u8; 12], ad: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    let n = data.len().checked_sub(16)?;
    if tag(key, nonce, ad, &data[..n]) != data[n..] {
        return None;
    }
    Some(chacha_xor(key, nonce, &data[..n]))
}

#[cfg(test)]
mod t {
    use super::*;
    fn hx(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    #[test]
    fn rfc8439() {
        let key: [u8; 32] = core::array::from_fn(|i| 0x80 + i as u8);
        let nonce = [7, 0, 0, 0, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47];
        let ad = [0x50, 0x51, 0x52, 0x53, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7];
        let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
        let c = seal(&key, &nonce, &ad, pt);
        assert_eq!(hx(&c[c.len() - 16..]), "1ae10b594f09e26a7e902ecbd0600691");
        assert_eq!(&hx(&c)[..32], "d31a8d34648e60db7b86afbc53ef7ec2");
        assert_eq!(open(&key, &nonce, &ad, &c).unwrap(), pt);
        let pk: [u8; 32] = core::array::from_fn(|i| {
            u8::from_str_radix(&"85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b"[2 * i..2 * i + 2], 16).unwrap()
        });
        assert_eq!(hx(&poly1305(&pk, b"Cryptographic Forum Research Group")), "a8061dc1305136c6c22b8baf0c0127a9");
        // RFC 8439 A.3 #7..#11 edge cases
        let mut r = [0u8; 32];
        r[0] = 2;
        assert_eq!(hx(&poly1305(&r, &[0xff; 16])), "03000000000000000000000000000000");
        let mut r = [0u8; 32];
        r[0] = 1;
        let m = [[0xffu8; 16], { let mut x = [0xff; 16]; x[0] = 0xf0; x }, { let mut x = [0; 16]; x[0] = 0x11; x }].concat();
        assert_eq!(hx(&poly1305(&r, &m)), "05000000000000000000000000000000");
        let m = [[0xffu8; 16], { let mut x = [0xfe; 16]; x[0] = 0xfb; x }, [1; 16]].concat();
        assert_eq!(hx(&poly1305(&r, &m)), "00000000000000000000000000000000");
        let mut r = [0u8; 32];
        r[0] = 2;
        let mut m = [0xff; 16];
        m[0] = 0xfd;
        assert_eq!(hx(&poly1305(&r, &m)), "faffffffffffffffffffffffffffffff");
    }
}
