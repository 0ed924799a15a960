//! Seeded generation of cases. (property, seed, index) -> one explicit case; nothing here runs the client except
//! `lengths`, which measures fault-free executions so that failures can be aimed at every byte offset.
use crate::plan::*;
use crate::prng::Rng;
use crate::run::run;
use crate::server::hs_msg;
use refc::{p256, Affine, U256};
use std::cell::RefCell;
use std::collections::HashMap;

/// number of cases for the two tiers
pub fn budget(prop: &str, thorough: bool) -> u64 {
    let (q, t) = match prop {
        "C01" => (30_000, 400_000),
        "C02" => (40_000, 500_000),
        "C03" => (35_000, 500_000),
        "C04" => (150_000, 400_000),
        "C05" => (22_500, 250_000),
        "C06" => (22_500, 250_000),
        "C07" => (30_000, 400_000),
        "C08" => (30_000, 400_000),
        "C09" => (35_000, 500_000),
        "C10" => (35_000, 400_000),
        "C11" => (50_000, 500_000),
        "C12" => (2_000, 30_000),
        "C13" => (25_000, 300_000),
        "C14" => (17_500, 200_000),
        "C15" => (30_000, 150_000),
        "C16" => (40_000, 500_000),
        "C17" => (30_000, 350_000),
        "C18" => (22_500, 250_000),
        "C19" => (8_750, 100_000),
        "C20" => (8_000, 100_000),
        _ => (0, 0),
    };
    if thorough {
        t
    } else {
        q
    }
}

pub const IDS: [&str; 20] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
];

pub fn gen(prop: &str, seed: u64, i: u64, thorough: bool) -> Case {
    let id = prop[1..].parse::<u64>().unwrap_or(0);
    let mut r = Rng::new(&[0x6e5, id, seed, i]);
    let r = &mut r;
    let (plans, rel) = match prop {
        "C01" => (vec![c01(r, i, thorough)], Rel::Each),
        "C02" => c02(r, i),
        "C03" => (vec![c03(r, i)], Rel::Each),
        "C04" => (vec![c04(r, i)], Rel::Each),
        "C05" => (vec![c05(r, i, thorough)], Rel::Each),
        "C06" => (vec![c06(r, i, thorough)], Rel::Each),
        "C07" => c07(r, i),
        "C08" => (vec![c08(r, i)], Rel::Each),
        "C09" => (vec![c09(r, i)], Rel::Each),
        "C10" => (vec![c10(r, i)], Rel::Each),
        "C11" => (vec![c11(r, i)], Rel::Each),
        "C12" => c12(r, i),
        "C13" => (vec![c13(r, i)], Rel::Each),
        "C14" => c14(r, i),
        "C15" => (vec![c15(r, i)], Rel::Each),
        "C16" => (vec![c16(r, i)], Rel::Each),
        "C17" => (vec![c17(r, i)], Rel::Each),
        "C18" => (vec![c18(r, i)], Rel::Each),
        "C19" => c19(r, i),
        "C20" => c20(r, i),
        _ => (vec![], Rel::Each),
    };
    let mut plans = plans;
    // a clock that is wrong and jumps
    let mut c = Rng::new(&[0xc10c, id, seed, i]);
    for p in plans.iter_mut() {
        if c.one_in(4) {
            p.net.clock = c.pick(&[-1_700_000_000, -86_400, -1, 1, 3600, 86_400 * 365, 1 << 31, 1 << 40]);
        }
        if c.one_in(8) {
            p.net.cjump = pattern(&mut c, &[0, 1, 3600, 86_400], 3).into_iter().map(|x| if x > 1 { x as i32 * if p.entropy.seed % 2 == 0 { -1 } else { 1 } } else { x as i32 }).collect();
        }
    }
    // data that looks like something else, odd randoms, calls from several threads
    let mut c = Rng::new(&[0xc047, id, seed, i]);
    let alone = plans.len() == 1;
    for p in plans.iter_mut() {
        let small = p.ops.len() < 60 && !p.ops.iter().any(|o| matches!(o, Op::WriteMany(..)));
        if small && c.one_in(6) {
            p.content = c.range(1, 10) as u8;
        }
        if c.one_in(6) {
            p.srv.content = c.range(1, 10) as u8;
        }
        if alone && c.one_in(8) {
            p.srv.random = Hex(match c.below(5) {
                0 => vec![0; 32],
                1 => vec![0xff; 32],
                2 => vec![0; c.range(1, 31) as usize],
                // what a server of a later version says to a client of this one
                3 => [&c.bytes(24)[..], b"DOWNGRD", &[c.below(2) as u8]].concat(),
                _ => b"GET / HTTP/1.1\r\nHost: a.example\r\n".to_vec(),
            });
        }
        if alone && c.one_in(8) {
            p.srv.sid_fill = Some(c.pick(&[0, 0xff, 0x16, 3]));
        }
        if alone && !matches!(rel, Rel::Release { steady: true }) && c.one_in(8) {
            for o in p.ops.iter_mut() {
                if matches!(o, Op::ReadAll(_, n) if *n >= 40) {
                    *o = Op::ReadEnd(c.below(3) as u8)
                }
            }
        }
        if small && c.one_in(16) {
            p.via = c.range(1, 3) as u8;
        }
        if alone && small && c.one_in(24) {
            p.hop = c.range(1, 3) as u8;
        }
    }
    // far into a connection: numbers no run can reach one by one
    let mut c = Rng::new(&[0x5e9, id, seed, i]);
    let often = matches!(prop, "C05" | "C06" | "C10");
    if cfg!(husk_sim) && alone && !matches!(prop, "C12" | "C19" | "C20") {
        let p = &mut plans[0];
        let s = &p.srv;
        let plain = s.raw.is_none() && s.edits1.is_empty() && s.edits2.is_empty() && s.eager == 0;
        if plain && c.one_in(if often { 5 } else { 24 }) {
            p.srv.skip_c = far(&mut c);
            p.srv.skip_s = far(&mut c);
        }
    }
    // what happens only after so many records
    let mut c = Rng::new(&[0x9e1, id, seed, i]);
    if alone && !matches!(prop, "C01" | "C02" | "C03" | "C04" | "C12" | "C14" | "C19" | "C20") && c.one_in(14) {
        prelude(&mut c, &mut plans[0]);
    }
    Case { prop: prop.into(), pre: vec![], plans, rel }
}

/// shortly before, at and behind the numbers at which counters and tables are full
fn count(r: &mut Rng) -> u32 {
    let k = match r.below(8) {
        0..=2 => 256,
        3 => 128,
        4 => 1 << r.range(3, 6),
        5 => 512,
        6 => 1024,
        _ => return r.range(2, 300) as u32,
    };
    k + r.below(5) as u32 - 3
}

/// many small records in one direction before anything else
fn prelude(r: &mut Rng, p: &mut Plan) {
    if p.srv.raw.is_some() {
        return;
    }
    let n = count(r);
    if r.one_in(2) {
        p.ops.insert(0, Op::WriteMany(n, 1));
        for s in p.srv.script.iter_mut() {
            s.after_rx += n as u64
        }
        for f in p.net.wfault.iter_mut().filter(|f| f.off >= 200) {
            f.off += 22 * n as u64
        }
    } else {
        let some = r.pick(&[1, 1, 0, 2]);
        p.srv.script.insert(0, Step { after_rx: 0, delay: 0, act: Act::SendMany(n, some) });
        if some > 0 {
            p.ops.insert(0, Op::ReadN(n * some, r.pick(&[1, 3, 100, 2000])));
        }
        for e in p.atk.iter_mut().filter(|e| e.at >= 3) {
            e.at += n
        }
        for f in p.net.rfault.iter_mut().filter(|f| f.off >= 300) {
            f.off += (21 + some as u64) * n as u64
        }
    }
}

/// shortly before a counter of some width is full
fn far(r: &mut Rng) -> u64 {
    let k = r.pick(&[0, 8, 16, 24, 31, 32, 32, 40, 48, 53, 56, 63]);
    match r.below(6) {
        0 => r.u64() >> r.range(1, 63),
        1 => 0xffff_ffff_ff00_0000 - r.below(1 << 40),
        _ => ((1u64 << k) - 1).saturating_sub(r.below(6)),
    }
}

// ---------------------------------------------------------------- building blocks

/// plan whose key agreement comes from a small pool (so that reference multiplications are remembered)
fn base(r: &mut Rng) -> Plan {
    let mut p = Plan::default();
    p.entropy.seed = r.below(8);
    p.srv.seed = (r.u64() & 0xffff_ffff & !255) | r.below(4);
    p
}

/// wide key pool
fn base_wide(r: &mut Rng) -> Plan {
    let mut p = Plan::default();
    p.entropy.seed = r.u64() >> 16;
    p.srv.seed = r.u64() >> 16;
    p
}

fn pattern(r: &mut Rng, vals: &[u32], max: usize) -> Vec<u32> {
    let n = r.range(1, max as u64) as usize;
    (0..n).map(|_| r.pick(vals)).collect()
}

/// benign transport behaviour: everything a working transport may legally do
fn benign(r: &mut Rng, total: u64) -> Net {
    let mut n = Net::default();
    // tiny chunks only while the traffic is small
    let small = total < 40_000;
    let chunk = |r: &mut Rng| -> Vec<u32> {
        let k = r.below(6);
        match k {
            0 if small => vec![1],
            1 if small => pattern(r, &[1, 2, 3], 4),
            2 if small => pattern(r, &[1, 4, 5, 6, 7, 0], 4),
            3 => pattern(r, &[0, 1, 5, 16, 100, 1000], 6),
            4 => vec![r.range(if small { 1 } else { 200 }, 20_000) as u32],
            // just about what buffers hold
            5 if r.one_in(2) => vec![(1 << r.range(if small { 5 } else { 9 }, 14)) + r.below(3) as u32 - 1],
            _ => pattern(r, &[0, 4096, 1448, 16384, 3], 5),
        }
    };
    let intr = |r: &mut Rng| -> Vec<u8> {
        match r.below(4) {
            0 => vec![1],
            1 => vec![0, 1],
            2 => (0..r.range(1, 6)).map(|_| r.below(4) as u8).collect(),
            _ => (0..r.range(3, 12)).map(|_| if r.one_in(3) { r.below(9) as u8 } else { 0 }).collect(),
        }
    };
    if r.pct(55) {
        n.rchunk = chunk(r)
    }
    if r.pct(35) {
        n.rintr = intr(r)
    }
    if r.pct(55) {
        n.wchunk = chunk(r)
    }
    if r.pct(35) {
        n.wintr = intr(r)
    }
    if r.pct(40) {
        n.seg = chunk(r)
    }
    if r.pct(40) {
        n.delay = pattern(r, &[0, 0, 1, 50, 1000, 200_000], 5)
    }
    if r.pct(40) {
        n.cdelay = pattern(r, &[0, 1, 50, 1000, 200_000], 4)
    }
    if r.pct(20) {
        n.window = if small { r.range(1, 400) } else { r.range(500, 70_000) } as u32
    }
    n
}

/// record packing of handshake messages
fn packing(r: &mut Rng) -> Vec<u32> {
    match r.below(7) {
        0 | 1 => vec![],
        2 => vec![u32::MAX],
        3 => vec![r.range(1, 8) as u32],
        4 => pattern(r, &[1, 2, 3, 4, 5, 50, 0], 5),
        5 => vec![r.range(20, 400) as u32],
        _ => pattern(r, &[u32::MAX, 0, 4, 1, 1000, 16384], 4),
    }
}

/// a server allowed to do everything the standard leaves open
fn compliant(r: &mut Rng, s: &mut Srv) {
    s.sid_len = if r.one_in(3) { r.range(0, 32) as u8 } else { r.pick(&[0, 0, 1, 31, 32, 32, 16]) };
    s.ext = match r.below(6) {
        0 | 1 => Ext::None,
        2 => Ext::Empty,
        3 => Ext::PointFormats(Hex(vec![0])),
        4 if r.one_in(4) => {
            let n = r.range(1, 255) as usize;
            let mut v: Vec<u8> = (0..n).map(|_| r.below(3) as u8).collect();
            v[r.below(n as u64) as usize] = 0;
            Ext::PointFormats(Hex(v))
        }
        4 => Ext::PointFormats(Hex(vec![0, 1, 2])),
        _ => Ext::PointFormats(Hex(vec![1, 0])),
    };
    s.certs = match r.below(8) {
        0 => vec![1],
        1 => vec![r.range(1, 3000) as u32, r.range(1, 3000) as u32],
        2 => vec![r.range(255, 257) as u32],
        3 => (0..r.range(2, 9)).map(|_| r.range(1, 900) as u32).collect(),
        4 if r.one_in(4) => vec![r.range(16_300, 16_400) as u32],
        5 if r.one_in(8) => vec![r.range(65_530, 65_540) as u32, 10],
        6 if r.one_in(8) => vec![r.range(30_000, 60_000) as u32, r.range(1, 40_000) as u32],
        6 if r.one_in(8) => (0..r.range(100, 600)).map(|_| r.range(1, 60) as u32).collect(),
        _ => vec![r.range(500, 1500) as u32],
    };
    s.sig_len = if r.one_in(12) { r.size(65_535) as u16 } else { r.pick(&[64, 128, 256, 256, 512, 0, 1, 255]) };
    s.pack = packing(r);
    if s.certs.iter().map(|c| *c as u64 + 3).sum::<u64>() + s.sig_len as u64 > 12_000 {
        for x in s.pack.iter_mut() {
            if *x < 300 {
                *x = 300 + *x
            }
        }
    }
    s.pack2 = packing(r);
}

/// certificates sized so that a message, or the flight up to the end of a message, ends exactly
/// (or nearly) at the end of a record of the largest size
fn full_records(r: &mut Rng, s: &mut Srv) {
    s.certs = match r.below(3) {
        0 => vec![r.range(1, 16_000) as u32],
        1 => vec![r.range(1, 16_000) as u32, r.range(1, 20_000) as u32],
        _ => vec![r.range(1, 3000) as u32],
    };
    s.pack = r.pick(&[vec![], vec![], vec![16_384], vec![u32::MAX]]);
    let lens: Vec<usize> = crate::server::first_flight(s).iter().map(|m| m.len()).collect();
    let end: usize = if s.pack == [u32::MAX] {
        lens[1]
    } else {
        lens[..r.pick(&[2usize, 3, 4, 4])].iter().sum()
    };
    let add = (16_384 - end % 16_384) as i64 + r.pick(&[0, 0, 0, 0, 1, -1]);
    if let Some(c) = s.certs.last_mut() {
        *c = (*c as i64 + add).max(1) as u32
    }
}

/// things a server should not do but a client may put up with
fn liberties(r: &mut Rng, s: &mut Srv) {
    if r.pct(80) {
        let n = r.range(1, 5);
        let mut v = vec![];
        for _ in 0..n {
            let t = match r.below(12) {
                0 => 10,
                1 => 11,
                2 => 13,
                3 => r.u64() as u16,
                _ => r.pick(&[0, 1, 5, 15, 16, 18, 22, 23, 35, 0x3374, 0x0a0a, 0xff01]),
            };
            let d = match t {
                10 => {
                    let k = r.range(1, 4) as usize;
                    let mut d = vec![0, 2 * k as u8];
                    (0..k).for_each(|_| d.extend(r.pick(&[23u16, 24, 25, 29, 0xff01]).to_be_bytes()));
                    d
                }
                11 => r.pick(&[vec![1, 0], vec![3, 0, 1, 2], vec![2, 1, 0]]),
                13 => {
                    let k = r.range(1, 4) as usize;
                    let mut d = vec![0, 2 * k as u8];
                    (0..k).for_each(|_| d.extend([r.range(1, 6) as u8, r.range(1, 3) as u8]));
                    d
                }
                _ => {
                    let k = if r.one_in(3) { 0 } else { r.size(300) } as usize;
                    r.bytes(k)
                }
            };
            if t == 11 && v.iter().any(|x: &(u16, Hex)| x.0 == 11) {
                continue;
            }
            v.push((t, Hex(d)));
        }
        s.ext = Ext::List(v);
    }
    if r.one_in(4) {
        s.sig_alg = r.pick(&[0x0201, 0x0101, 0x0501, 0x0601, 0x0403, 0x0503, 0x0000, 0x0301, 0x0402, 0x0603]);
    }
    if r.one_in(6) {
        s.certs = vec![]
    }
}

/// multiples of the base point with coordinates that begin or end with 22 bits or more of zeros or ones
const RARE: [u64; 37] = [
    1476301, 12132004, 4763952, 7356809, 16014639, 9470828, 15985968, 8013867, 3924375, 3083497, 4130886, 3317800, 9974120, 15053098, 3368015, 16397703, 14350698, 11567344, 7455128, 12279447, 11948115, 7280631, 6622514, 586938, 2934436, 1339957, 13067059, 8438921, 7155426, 931238, 14695759, 6255688, 8505282, 11951692, 5851108, 5518102, 11612226,
];

fn special_scalar(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        8 => {
            let k = U256::from_u64(r.pick(&RARE));
            if r.one_in(3) { p256::N.sub(k).0.to_be().to_vec() } else { k.to_be().to_vec() }
        }
        0 => vec![0xff; 32],
        1 => {
            // a run of ones
            let a = r.below(256) as usize;
            let b = r.range(a as u64, 255) as usize;
            let mut v = vec![0u8; 32];
            for i in a..=b {
                v[31 - i / 8] |= 1 << (i % 8)
            }
            v
        }
        2 => {
            // one bit
            let mut v = vec![0u8; 32];
            let i = r.below(256) as usize;
            v[31 - i / 8] |= 1 << (i % 8);
            v
        }
        3 => {
            // limbs of zeros and ones
            let mut v = vec![];
            for _ in 0..8 {
                v.extend_from_slice(&r.pick(&[[0u8; 4], [0xff; 4], [0, 0, 0, 1], [0x80, 0, 0, 0], [0x7f, 0xff, 0xff, 0xff]]));
            }
            v
        }
        4 => {
            let k = r.below(16);
            let d = p256::N.sub(U256::from_u64(k)).0;
            d.to_be().to_vec()
        }
        5 => {
            let k = r.below(16);
            U256::from_u64(k).to_be().to_vec()
        }
        6 => {
            // half of the order and around
            let mut v: Vec<u8> = vec![0x7f, 0xff, 0xff, 0xff, 0x80, 0, 0, 0, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xde, 0x73, 0x7d, 0x56, 0xd3, 0x8b, 0xcf, 0x42, 0x79, 0xdc, 0xe5, 0x61, 0x7e, 0x31, 0x92, 0xa8];
            v[31] = v[31].wrapping_add(r.below(4) as u8);
            v
        }
        _ => {
            // sparse bytes
            let mut v = r.bytes(32);
            let m = r.u64() as u32;
            for (i, b) in v.iter_mut().enumerate() {
                if m >> i & 1 == 1 {
                    *b = if r.one_in(2) { 0 } else { 0xff }
                }
            }
            v
        }
    }
}

/// overrides for the 32 bytes a scalar is drawn from, however limbs are ordered
/// a valid point whose private key nobody knows, with rare words in its x coordinate
fn rare_point(r: &mut Rng) -> Vec<u8> {
    loop {
        let x = match r.below(4) {
            0 => U256::from_be(&special_scalar(r)),
            1 => p256::P.sub(U256::from_u64(r.range(1, 200))).0,
            2 => {
                // words of zeros, ones and nearly so, like the words of the modulus
                let mut v = vec![];
                for _ in 0..8 {
                    let w = match r.below(8) {
                        0 | 1 => 0,
                        2 | 3 => u32::MAX,
                        4 => 1,
                        5 => u32::MAX - r.below(3) as u32,
                        6 => 0x8000_0000,
                        _ => r.u64() as u32,
                    };
                    v.extend_from_slice(&w.to_be_bytes());
                }
                U256::from_be(&v)
            }
            _ => U256::from_u64(r.below(5000)),
        };
        // a neighbour that is on the curve
        for d in 0..8 {
            if let Some(a) = Affine::lift_x(x.add(U256::from_u64(d)).0, r.one_in(2)) {
                return a.to_bytes();
            }
        }
    }
}

/// A point that misses the curve by few bits of the equation.
fn near_point(r: &mut Rng) -> Vec<u8> {
    loop {
        let mut m = [0u8; 32];
        match r.below(5) {
            0 | 1 => m[r.below(32) as usize] = 1 << r.below(8),
            2 => {
                // within one word
                let w = r.below(8) as usize;
                let b = r.bytes(4);
                m[4 * w..4 * w + 4].copy_from_slice(&b);
            }
            3 => {
                // the same byte of every word
                let l = r.below(4) as usize;
                for w in 0..8 {
                    m[4 * w + l] = r.u64() as u8
                }
            }
            _ => {
                // the same bit of some words
                let (l, b) = (r.below(4) as usize, 1 << r.below(8));
                for w in 0..8 {
                    if r.one_in(2) {
                        m[4 * w + l] = b
                    }
                }
            }
        }
        let x = if r.one_in(4) { U256::from_u64(r.below(1000)) } else { U256::from_be(&r.bytes(32)) };
        if let Some(a) = Affine::near(x, U256::from_be(&m), r.one_in(3)) {
            return a.to_bytes();
        }
    }
}

fn entropy_scalar(r: &mut Rng, e: &mut Entropy) {
    let v = special_scalar(r);
    let v: Vec<u8> = match r.below(3) {
        0 => v.into_iter().rev().collect(), // little endian throughout: 4-byte words, lowest first
        1 => v,
        _ => {
            let mut o = vec![];
            for w in v.chunks(4).rev() {
                o.extend_from_slice(w)
            }
            o
        }
    };
    e.set.push((32, Hex(v)));
}

fn size(r: &mut Rng, big: bool) -> u32 {
    match r.below(if big { 12 } else { 9 }) {
        0 => 0,
        1 => 1,
        2 => r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65]),
        3 => r.pick(&[127, 128, 255, 256, 257]),
        4..=6 => r.range(1, 300) as u32,
        7 | 8 => r.size(3000) as u32,
        9 => r.pick(&[16_383, 16_384, 16_385]),
        10 => r.pick(&[32_767, 32_768, 32_769, 49_152, 40_000]),
        _ => r.range(1, 70_000) as u32,
    }
}

fn craft_size(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => r.range(1, 40) as u32,
        1 => 16 * r.range(1, 1024) as u32,
        2 => 16_384,
        _ => 16 * r.range(1, 16) as u32,
    }
}

fn rec_size(r: &mut Rng, big: bool) -> u32 {
    let s = size(r, big);
    if s > 16_384 {
        r.range(16_000, 16_384) as u32
    } else {
        s
    }
}

/// A conversation in turns. Returns bytes sent by the client and by the server.
fn chat(r: &mut Rng, p: &mut Plan, turns: u64, big: bool) -> (u64, u64) {
    let mut tx = 0u64;
    let mut rx = 0u64;
    for _ in 0..turns {
        if r.one_in(2) {
            for _ in 0..r.range(1, 4) {
                let n = size(r, big);
                p.ops.push(if r.one_in(4) { Op::Write(n) } else { Op::WriteAll(n) });
                tx += n as u64;
                if r.one_in(6) {
                    p.ops.push(Op::Flush)
                }
            }
        } else {
            let v: Vec<u32> = (0..r.range(1, 5)).map(|_| rec_size(r, big)).collect();
            let n: u64 = v.iter().map(|x| *x as u64).sum();
            p.srv.script.push(Step { after_rx: tx, delay: r.pick(&[0, 0, 1, 70, 5000]), act: Act::Send(v) });
            rx += n;
            let buf = match r.below(5) {
                0 if n < 400 => 1,
                1 => r.range(1, 40) as u32 + (n / 100) as u32,
                2 => n.max(1) as u32,
                _ => r.range(1, 3000) as u32,
            };
            // now and then data is left unread, also in the middle of a record
            let want = if r.one_in(6) { r.below(n + 1) } else { n };
            p.ops.push(Op::ReadN(want as u32, buf));
            if r.one_in(8) {
                p.ops.push(Op::Read(0))
            }
        }
    }
    (tx, rx)
}

fn ending(r: &mut Rng, p: &mut Plan, tx: u64) {
    match r.below(5) {
        0 => {}
        1 => p.ops.push(Op::Close),
        2 => {
            p.srv.script.push(Step { after_rx: tx, delay: 3, act: Act::Close });
            p.srv.script.push(Step { after_rx: tx, delay: 0, act: Act::Fin });
            p.ops.push(Op::ReadAll(vec![r.range(1, 50) as u32], 3));
            p.ops.push(Op::Read(7));
            p.ops.push(Op::Close);
        }
        3 => {
            p.srv.script.push(Step { after_rx: tx, delay: 3, act: Act::Close });
            p.ops.push(Op::ReadAll(vec![r.range(1, 50) as u32], 3));
            p.ops.push(Op::WriteAll(5));
            p.ops.push(Op::Close);
        }
        _ => {
            p.srv.reply_close = true;
            p.ops.push(Op::Close);
            p.ops.push(Op::Read(5));
        }
    }
}

/// calls an application may go on making whatever happened
fn tail(r: &mut Rng, p: &mut Plan) {
    for _ in 0..r.range(0, 5) {
        let o = match r.below(7) {
            0 | 1 => Op::Read(r.range(1, 40) as u32),
            2 => Op::WriteAll(size(r, false)),
            3 => Op::Write(r.range(1, 20) as u32),
            4 => Op::Flush,
            5 => Op::Close,
            _ => Op::Read(1),
        };
        p.ops.push(o)
    }
}

fn mask(r: &mut Rng) -> u8 {
    if r.pct(70) {
        1 << r.below(8)
    } else {
        r.range(1, 255) as u8
    }
}

fn rec_op(r: &mut Rng, n_recs: u64) -> RecOp {
    match r.below(20) {
        0..=3 => RecOp::Xor(r.below(600) as u32, mask(r)),
        4 => RecOp::Xor(r.below(6) as u32, mask(r)),
        5 => RecOp::Drop,
        6 => RecOp::Dup,
        7 => RecOp::SwapNext,
        8 => RecOp::Replay(r.below(n_recs.max(1)) as u32),
        9 => RecOp::SetType(r.pick(&[20, 21, 22, 23, 24, 0, 255])),
        10 => RecOp::SetVer(r.pick(&[0x0300, 0x0301, 0x0302, 0x0304, 0x0203, 0x7f12])),
        11 => RecOp::SetLen(r.pick(&[0, 1, 15, 16, 17, 40, 16_384, 16_400, 18_432, 18_433, 65_535])),
        12 => RecOp::Truncate(r.below(60) as u32, r.one_in(2)),
        13 => RecOp::Append(Hex({ let n = r.range(1, 40) as usize; r.bytes(n) }), r.pct(70)),
        14 => {
            let ct = r.pick(&[20u8, 21, 22, 23, 24]);
            let body = match ct {
                20 => vec![1],
                21 => r.pick(&[vec![1, 0], vec![2, 0], vec![2, 40], vec![1, 90]]),
                22 => r.pick(&[hs_msg(0, &[]), hs_msg(14, &[]), vec![], hs_msg(20, &[0; 12])]),
                _ => { let n = r.range(0, 60) as usize; r.bytes(n) },
            };
            RecOp::Inject { ct, ver: 0x0303, body: Hex(body) }
        }
        15 => RecOp::InjectRaw(Hex({ let n = r.range(1, 40) as usize; r.bytes(n) })),
        16 => RecOp::Reflect(r.below(7) as u32),
        17 => RecOp::Split(r.range(1, 60) as u32),
        18 => RecOp::Cut,
        _ => RecOp::Truncate(r.below(17) as u32, true),
    }
}

/// Two changes of one record that some sums and foldings do not see.
fn two_flips(r: &mut Rng, p: &mut Plan, at: u32, len: u32) {
    let m = if r.one_in(2) { 0x80 } else { mask(r) };
    // mostly within the authentication code
    let lo = if r.pct(80) { len - 16.min(len) } else { 5.min(len - 1) };
    let a = r.range(lo as u64, len as u64 - 1) as u32;
    let b = match r.below(4) {
        0 => lo + (a - lo + 4) % (len - lo),
        1 => lo + (a - lo + 8) % (len - lo),
        2 => lo + (a - lo + 1) % (len - lo),
        _ => r.range(lo as u64, len as u64 - 1) as u32,
    };
    p.atk.push(RecEdit { at, op: RecOp::Xor(a, m) });
    if a != b {
        p.atk.push(RecEdit { at, op: RecOp::Xor(b, m) });
    }
}

const HS_TYPES: [u8; 14] = [0, 1, 2, 3, 4, 11, 12, 13, 14, 15, 16, 20, 22, 99];

/// something to put where it does not belong
fn stray(r: &mut Rng) -> Item {
    match r.below(14) {
        0..=2 => Item::Copy(r.below(6) as u32),
        3 => Item::Hs(Hex(hs_msg(r.pick(&HS_TYPES), &[]))),
        4 => Item::Hs(Hex(hs_msg(r.pick(&HS_TYPES), &{ let n = r.range(1, 40) as usize; r.bytes(n) }))),
        5 | 6 => Item::Ccs(Hex(vec![1])),
        7 => Item::Ccs(Hex(r.pick(&[vec![], vec![0], vec![2], vec![1, 1], vec![1, 0], vec![255]]))),
        8 => Item::Alert(r.pick(&[1, 2]), if r.one_in(2) { r.below(120) as u8 } else { r.pick(&[0, 10, 40, 90, 100, 112, 80]) }),
        9 => Item::Rec { ct: 23, ver: 0x0303, body: Hex({ let n = r.range(0, 30) as usize; r.bytes(n) }) },
        10 => Item::Rec { ct: r.pick(&[0, 19, 24, 255, 22, 21]), ver: 0x0303, body: Hex({ let n = r.range(0, 5) as usize; r.bytes(n) }) },
        11 => Item::Fin(0, 0),
        12 if r.one_in(2) => Item::FinAlt(r.below(8 * 132) as u32),
        12 => Item::FinC,
        _ => Item::Protect(r.one_in(2)),
    }
}

fn msg_op(r: &mut Rng) -> MsgOp {
    match r.below(12) {
        0 => MsgOp::Drop,
        1 => MsgOp::Dup,
        2 => MsgOp::SwapNext,
        3 | 4 => MsgOp::InsertBefore(stray(r)),
        5 => MsgOp::Xor(r.below(300) as u32, mask(r)),
        6 => MsgOp::Truncate(r.below(120) as u32),
        7 => MsgOp::Append(Hex({ let n = r.range(1, 9) as usize; r.bytes(n) })),
        8 => MsgOp::Remove(r.below(120) as u32, r.range(1, 5) as u32),
        9 => MsgOp::SetLen(r.pick(&[0, 1, 2, 0xff_ffff, 0x10_0000, 300, 70_000])),
        10 => MsgOp::SetType(r.pick(&HS_TYPES)),
        _ => MsgOp::Replace(stray(r)),
    }
}

thread_local! {
    static LEN: RefCell<HashMap<String, (u64, u64, u64)>> = RefCell::new(HashMap::new());
}

/// bytes client->server, bytes consumed server->client, flush calls of a plan run without faults
fn lengths(p: &Plan) -> (u64, u64, u64) {
    let key = serde_json::to_string(p).unwrap_or_default();
    if let Some(x) = LEN.with(|c| c.borrow().get(&key).copied()) {
        return x;
    }
    let o = run(p, false);
    let x = (o.c2s.len() as u64, o.s2c_consumed as u64, o.counts.flushes);
    LEN.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 1000 {
            c.clear()
        }
        c.insert(key, x);
    });
    x
}

const KINDS: [FKind; 11] = [
    FKind::Reset,
    FKind::Zero,
    FKind::TimedOut,
    FKind::WouldBlock,
    FKind::BrokenPipe,
    FKind::Aborted,
    FKind::NotConnected,
    FKind::NoSpace,
    FKind::Other,
    FKind::UnexpectedEof,
    FKind::InvalidData,
];

/// the given one of the usual kinds, or now and then anything else a transport may fail with
fn kind(r: &mut Rng, i: u64) -> FKind {
    match r.below(16) {
        0 => FKind::Os(r.pick(&[1, 5, 9, 12, 13, 22, 28, 61, 71, 88, 90, 95, 99, 100, 101, 102, 105, 108, 111, 112, 113, 115, 125])),
        1 => FKind::Std(r.below(STD.len() as u64) as u8),
        _ => KINDS[i as usize % KINDS.len()],
    }
}

fn echo_check(r: &mut Rng, p: &mut Plan) {
    // data in both directions after connecting
    let n = r.range(1, 200) as u32;
    p.ops.push(Op::WriteAll(n));
    let m = r.range(1, 200) as u32;
    p.srv.script.push(Step { after_rx: n as u64, delay: 0, act: Act::Send(vec![m]) });
    p.ops.push(Op::ReadN(m, m));
}

// ---------------------------------------------------------------- the properties

fn c01(r: &mut Rng, i: u64, thorough: bool) -> Plan {
    let mut p = base_wide(r);
    compliant(r, &mut p.srv);
    if i % 10 == 3 {
        liberties(r, &mut p.srv)
    }
    match i % 8 {
        0 => p.srv.key = KeySpec::Scalar(Hex(special_scalar(r))),
        1 => entropy_scalar(r, &mut p.entropy),
        2 => {
            p.srv.key = KeySpec::Scalar(Hex(special_scalar(r)));
            entropy_scalar(r, &mut p.entropy)
        }
        3 => p.srv.key = if r.one_in(2) { KeySpec::Small(r.range(1, 20)) } else { KeySpec::NMinus(r.range(1, 20)) },
        4 => {
            if i / 8 % 2 == 0 {
                // the product of the two keys is rare, neither of them is
                let d = U256::from_be(&r.bytes(32)).0;
                let d = U256([d[0] >> 1, d[1], d[2], d[3] | 1]);
                let t = rare_point(r);
                if let Some(q) = Affine::from_bytes(&t).and_then(|t| t.mul(p256::inv_n(d))) {
                    p.srv.key = KeySpec::Raw(Hex(q.to_bytes()));
                    p.entropy.set.push((32, Hex(d.to_be().iter().rev().copied().collect())));
                }
            } else {
                p.srv.key = KeySpec::Raw(Hex(rare_point(r)));
                if r.one_in(3) {
                    entropy_scalar(r, &mut p.entropy)
                }
            }
        }
        _ => {}
    }
    if i % 8 == 5 || i % 8 == 6 {
        // same key pool; exercise transport and packing instead
        p.entropy.seed %= 8;
        p.srv.seed = (p.srv.seed & !255) | (p.srv.seed & 3);
    }
    if i % 40 == 27 {
        full_records(r, &mut p.srv)
    }
    if i % 1000 == 571 {
        // a certificate list of megabytes
        let max = if thorough { (1 << 24) - 20 } else { 3_000_000 };
        p.srv.certs = vec![];
        let mut left = if thorough && r.one_in(3) { max } else { r.range(70_000, max) };
        while left > 4 && p.srv.certs.len() < 20 {
            let n = (if r.one_in(2) { left } else { r.range(1, left) }).saturating_sub(3).max(1);
            p.srv.certs.push(n as u32);
            left = left.saturating_sub(n + 3);
        }
        p.srv.pack = r.pick(&[vec![], vec![16_384], vec![16_384, 3000], vec![u32::MAX]]);
    }
    let total: u64 = p.srv.certs.iter().map(|c| *c as u64 + 3).sum::<u64>() + p.srv.sig_len as u64 + 2000;
    if r.pct(75) {
        p.net = benign(r, total)
    }
    if r.pct(20) {
        p.atk.push(RecEdit { at: r.below(2) as u32, op: RecOp::Split(r.range(1, 80) as u32) });
    }
    echo_check(r, &mut p);
    if r.one_in(3) {
        let t = r.range(1, 3);
        let mut q = Plan { ops: vec![], ..Plan::default() };
        let (_tx, _rx) = chat(r, &mut q, t, false);
        let off = p.ops.iter().map(|o| if let Op::WriteAll(n) = o { *n as u64 } else { 0 }).sum::<u64>();
        for mut s in q.srv.script {
            s.after_rx += off;
            p.srv.script.push(s)
        }
        p.ops.extend(q.ops);
    }
    if r.one_in(2) {
        p.ops.push(Op::Close)
    }
    p
}

fn some_ops(r: &mut Rng, p: &mut Plan) {
    // what an application would do if connecting succeeded
    p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Send(vec![r.range(1, 60) as u32, 9]) });
    p.ops.push(Op::Read(10));
    p.ops.push(Op::WriteAll(20));
    p.ops.push(Op::Read(1));
    p.ops.push(Op::Close);
}

fn c02(r: &mut Rng, i: u64) -> (Vec<Plan>, Rel) {
    let mut p = base(r);
    p.srv.lenient = r.pct(75);
    p.srv.idle_eof = r.one_in(2);
    some_ops(r, &mut p);
    let k = i / 10;
    match i % 10 {
        0 | 1 => {
            // one byte of the server's handshake records
            if r.one_in(3) {
                compliant(r, &mut p.srv);
                if r.one_in(4) {
                    liberties(r, &mut p.srv)
                }
                p.srv.pack2 = vec![];
            }
            if r.pct(40) {
                p.srv.pack = vec![u32::MAX]
            }
            let recs = if p.srv.pack == vec![u32::MAX] { 6 } else { 3 };
            p.atk.push(RecEdit { at: (k % recs) as u32, op: RecOp::Xor((k / recs) as u32 % 320, mask(r)) });
        }
        2 => {
            // one byte of the client's handshake records
            p.atk_c.push(RecEdit { at: (k % 4) as u32, op: RecOp::Xor((k / 4) as u32 % 120, mask(r)) });
        }
        3 => {
            if r.one_in(2) {
                p.srv.pack = packing(r)
            }
            for _ in 0..r.range(1, 2) {
                let at = r.below(7) as u32;
                p.atk.push(RecEdit { at, op: rec_op(r, 4) });
            }
        }
        4 => {
            for _ in 0..r.range(1, 2) {
                let at = r.below(4) as u32;
                p.atk_c.push(RecEdit { at, op: rec_op(r, 4) });
            }
        }
        5 => {
            // messages changed on the way, kept well-formed
            compliant(r, &mut p.srv);
            if r.one_in(5) {
                liberties(r, &mut p.srv)
            }
            p.srv.edits_in_transit = true;
            let at = (k % 4) as u32;
            p.srv.edits1.push(MsgEdit { at, op: if r.pct(60) { MsgOp::Xor((k / 4) as u32 % 400, mask(r)) } else { msg_op(r) } });
        }
        6 => {
            // the first flight of another server, or a message of it
            p.srv.edits_in_transit = true;
            let mut other = p.srv.clone();
            other.seed = r.u64() & !255 | 1;
            other.edits_in_transit = false;
            let msgs = flight_of(&other);
            if r.one_in(2) {
                let m = r.below(msgs.len() as u64) as usize;
                p.srv.edits1.push(MsgEdit { at: m as u32, op: MsgOp::Replace(Item::Hs(Hex(msgs[m].clone()))) });
            } else {
                for (m, b) in msgs.iter().enumerate() {
                    p.srv.edits1.push(MsgEdit { at: m as u32, op: MsgOp::Replace(Item::Hs(Hex(b.clone()))) });
                }
            }
        }
        7 => {
            // wrong Finished values, all bytes and bits
            let op = match r.below(7) {
                6 => MsgOp::Replace(Item::FinAlt(r.below(8 * 132) as u32)),
                0..=2 => MsgOp::Replace(Item::Fin((k % 12) as u32, mask(r))),
                3 => MsgOp::Replace(Item::FinC),
                4 => MsgOp::Replace(Item::Hs(Hex(hs_msg(20, &r.pick(&[vec![0; 12], vec![0xff; 12], vec![], vec![0; 11], vec![0; 13]]))))),
                _ => r.pick(&[MsgOp::Truncate(11), MsgOp::Truncate(0), MsgOp::Append(Hex(vec![0])), MsgOp::Truncate(1)]),
            };
            p.srv.edits2.push(MsgEdit { at: 2, op });
            if r.one_in(4) {
                // two bytes of it, which sums and foldings may not tell from none
                let m = if r.one_in(2) { 0x80 } else { mask(r) };
                let a = r.below(12) as u32;
                let b = (a + r.range(1, 11) as u32) % 12;
                p.srv.edits2 = vec![MsgEdit { at: 2, op: MsgOp::Replace(Item::Fin(4 + a, m)) }, MsgEdit { at: 2, op: MsgOp::Xor(4 + b, m) }];
            }
            p.srv.pack2 = packing(r);
            if r.one_in(4) {
                // and then the right one
                for _ in 0..r.pick(&[1, 1, 1, 2, 3]) {
                    p.srv.edits2.push(MsgEdit { at: 3, op: MsgOp::InsertBefore(Item::Fin(0, 0)) });
                    if r.one_in(3) {
                        p.srv.edits2.push(MsgEdit { at: 3, op: MsgOp::InsertBefore(Item::Fin(r.below(12) as u32, mask(r))) });
                    }
                }
            }
        }
        8 => {
            // records of another handshake
            let mut q = base(r);
            q.srv.seed = if r.one_in(2) { p.srv.seed } else { q.srv.seed };
            if r.one_in(3) {
                p.entropy = q.entropy.clone();
            }
            some_ops(r, &mut q);
            let rel = Rel::Splice { rec: r.below(4) as u32, at: r.below(4) as u32, replace: r.pct(70) };
            return (vec![q, p], rel);
        }
        _ => {
            // a server that did not see the conversation the client saw
            p.srv.edits_in_transit = true;
            let op = msg_op(r);
            p.srv.edits1.push(MsgEdit { at: r.below(4) as u32, op });
            if r.one_in(2) {
                p.atk_c.push(RecEdit { at: r.below(2) as u32, op: rec_op(r, 3) });
            }
            p.srv.pack = packing(r);
        }
    }
    if r.one_in(5) {
        p.net = benign(r, 3000)
    }
    (vec![p], Rel::Each)
}

/// the unedited first flight a server of this description sends
fn flight_of(s: &Srv) -> Vec<Vec<u8>> {
    crate::server::first_flight(s)
}

fn c03(r: &mut Rng, i: u64) -> Plan {
    let mut p = base(r);
    p.srv.canon_transcript = r.pct(60);
    p.srv.lenient = r.pct(50);
    some_ops(r, &mut p);
    if r.pct(40) {
        p.srv.pack = packing(r)
    }
    if r.pct(20) {
        p.srv.pack2 = packing(r)
    }
    let k = i / 8;
    if k % 8 == 5 {
        // a record of its own in the middle of a message
        let (ct, body) = match r.below(10) {
            0..=2 => (22, vec![]),
            3 => (20, vec![1]),
            4 => (23, vec![]),
            5 => (23, vec![1, 2, 3]),
            6 => (21, vec![1, r.pick(&[0, 90, 100, 112])]),
            7 => (21, vec![]),
            8 => (20, vec![]),
            _ => (22, vec![0, 0, 0, 0]),
        };
        if r.pct(60) {
            let n = r.range(1, 60) as u32;
            p.srv.pack = vec![n];
            p.srv.certs = vec![r.range(1, 300) as u32];
            let len: usize = flight_of(&p.srv).iter().map(|m| m.len()).sum();
            let at = if r.one_in(3) { r.below(4) } else { r.below(len as u64 / n as u64 + 2) };
            p.atk.push(RecEdit { at: at as u32, op: RecOp::Inject { ct, ver: 0x0303, body: Hex(body) } });
        } else {
            let cut = r.range(1, 15) as u32;
            p.srv.edits2.push(MsgEdit { at: 2, op: MsgOp::Replace(Item::FinPart(0, cut)) });
            p.srv.edits2.push(MsgEdit { at: 3, op: MsgOp::InsertBefore(Item::Rec { ct, ver: 0x0303, body: Hex(body) }) });
            p.srv.edits2.push(MsgEdit { at: 4, op: MsgOp::InsertBefore(Item::FinPart(cut, 16)) });
        }
        return p;
    }
    match i % 8 {
        0 => {
            // every stray item at every place of the first flight
            let at = (k % 5) as u32;
            p.srv.edits1.push(MsgEdit { at, op: MsgOp::InsertBefore(stray(r)) });
        }
        1 => {
            let at = (k % 4) as u32;
            let op = match (k / 4) % 4 {
                0 => MsgOp::Drop,
                1 => MsgOp::Dup,
                2 => MsgOp::SwapNext,
                _ => MsgOp::Replace(stray(r)),
            };
            p.srv.edits1.push(MsgEdit { at, op });
        }
        2 => {
            let at = (k % 4) as u32;
            p.srv.edits2.push(MsgEdit { at, op: MsgOp::InsertBefore(stray(r)) });
        }
        3 => {
            let at = (k % 3) as u32;
            let op = match (k / 3) % 5 {
                0 => MsgOp::Drop,
                1 => MsgOp::Dup,
                2 => MsgOp::SwapNext,
                3 => MsgOp::Replace(Item::Ccs(Hex(r.pick(&[vec![], vec![0], vec![2], vec![1, 1], vec![0, 1], vec![1, 0], vec![3]])))),
                _ => MsgOp::Replace(stray(r)),
            };
            p.srv.edits2.push(MsgEdit { at, op });
        }
        4 => {
            // handshake bytes before the cipher change that belong to a message after it
            let cut = r.range(1, 16) as u32;
            match r.below(4) {
                0 => {
                    // beginning of Finished in the clear, rest protected
                    p.srv.edits2.push(MsgEdit { at: 0, op: MsgOp::InsertBefore(Item::FinPart(0, cut)) });
                    p.srv.edits2.push(MsgEdit { at: 3, op: MsgOp::Replace(Item::FinPart(cut, 16)) });
                }
                1 => {
                    // behind hello done in the first flight
                    let n = r.range(1, 3) as usize;
                    let b = [20u8, 0, 0, 12][..n].to_vec();
                    p.srv.edits1.push(MsgEdit { at: 4, op: MsgOp::InsertBefore(Item::Rec { ct: 22, ver: 0x0303, body: Hex(b) }) });
                    p.srv.edits2.push(MsgEdit { at: 2, op: MsgOp::Replace(Item::FinPart(n as u32, 16)) });
                }
                2 => {
                    // whole Finished in the clear, before or after the cipher change
                    p.srv.edits2.push(MsgEdit { at: r.below(3) as u32, op: MsgOp::InsertBefore(Item::Fin(0, 0)) });
                    if r.one_in(2) {
                        p.srv.edits2.push(MsgEdit { at: 3, op: MsgOp::Drop });
                    }
                }
                _ => {
                    // never protected
                    p.srv.edits2.push(MsgEdit { at: 1, op: MsgOp::Drop });
                }
            }
        }
        5 => {
            p.srv.eager = r.range(1, 3) as u8;
            p.srv.lenient = true;
            if r.one_in(2) {
                let at = r.below(3) as u32;
                p.srv.edits2.push(MsgEdit { at, op: MsgOp::InsertBefore(stray(r)) });
            }
        }
        6 if r.one_in(4) => {
            // a message of another server or a malformed one, and then the right one (or the other way round)
            let at = (k % 4) as u32;
            p.srv.canon_transcript = r.pct(75);
            p.srv.canon_last = r.pct(75);
            p.srv.edits1.push(MsgEdit { at, op: MsgOp::Dup });
            let at = if r.pct(75) { at } else { at + 1 };
            let mut other = p.srv.clone();
            other.seed = r.u64() & !255 | 1;
            let op = if r.one_in(2) { MsgOp::Replace(Item::Hs(Hex(flight_of(&other).swap_remove((k % 4) as usize)))) } else { msg_op(r) };
            p.srv.edits1.push(MsgEdit { at, op });
        }
        6 => {
            // malformed messages with matching transcripts
            p.srv.canon_transcript = false;
            let at = (k % 4) as u32;
            let op = match r.below(6) {
                0 => MsgOp::Append(Hex({ let n = r.range(1, 4) as usize; r.bytes(n) })),
                1 => MsgOp::Truncate((k / 4) as u32 % 300),
                2 => MsgOp::Remove((k / 4) as u32 % 300, 1),
                3 => MsgOp::InsertRaw((k / 4) as u32 % 300, Hex(r.bytes(1))),
                4 => MsgOp::Xor((k / 4) as u32 % 48, mask(r)),
                _ => MsgOp::Xor((k / 4) as u32 % 300, mask(r)),
            };
            p.srv.edits1.push(MsgEdit { at, op });
            if r.one_in(3) {
                compliant(r, &mut p.srv)
            }
        }
        _ => {
            for _ in 0..r.range(1, 3) {
                let at = r.below(5) as u32;
                let op = msg_op(r);
                if r.one_in(2) {
                    p.srv.edits1.push(MsgEdit { at, op })
                } else {
                    p.srv.edits2.push(MsgEdit { at, op })
                }
            }
        }
    }
    if r.one_in(6) {
        p.net = benign(r, 3000)
    }
    p
}

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// curve points with small or extreme coordinates
pub const POINTS: [(&str, &str); 13] = [
    ("0000000000000000000000000000000000000000000000000000000000000000", "66485c780e2f83d72433bd5d84a06bb6541c2af31dae871728bf856a174f93f4"),
    ("0000000000000000000000000000000000000000000000000000000000000005", "459243b9aa581806fe913bce99817ade11ca503c64d9a3c533415c083248fbcc"),
    ("0000000000000000000000000000000000000000000000000000000000000006", "36b24c2c54250ac2466985e533720047dcd102b80fe7c0e9220d5128828223cb"),
    ("0000000000000000000000000000000000000000000000000000000000000008", "b706288aca290db0d624d1d23f37f6a627249b16d631ff692242d085636041b3"),
    ("0000000000000000000000000000000000000000000000000000000000000009", "8e14e8432caf2e23caaa94f7d33315cbfbc522763c63a432db1812e48fe7b297"),
    ("00000000fffffffefffffffffffffffffffffffeffffffffffffffffffffffff", "32cb4ef022ad7f5fd974cdcdadb35451bc5d69eb7d2b5b1a40ab1b5da29226d9"),
    ("00000000fffffffefffffffffffffffffffffffefffffffffffffffffffffffd", "f8e811d7e8ef89a7b40ee35a48d9379cc08ce85e3a9736795686972ecd552152"),
    ("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", "19719bebf6aea13f25c96dfd7c71f5225d4c8fc09eb5a0ab9f39e9178e55c121"),
    ("ffffffff00000001000000000000000000000000fffffffffffffffffffffffb", "de998cb9ed8a12d7f706cf79349a0621142af47f9faba77e895e9177392eefb7"),
    ("09e78d4ef60d05f750f6636209092bc43cbdd6b47e11a9de20a9feb2a50bb96c", "0000000000000000000000000000000000000000000000000000000000000001"),
    ("7fafb72b9e2f17b87cc216b6785c0bfc860ed577216fd3c8f30a7a8707e613ca", "0000000000000000000000000000000000000000000000000000000000000004"),
    ("d7325d7646cd60d80a92738ceb345f844cffaf35841022cab176f692de8de1d7", "0000000000000000000000000000000000000000000000000000000000000005"),
    ("9b21c2de1da31d68731dbdaf97d7ab3f979131e28e3dc5b2077d5a7187914a78", "0000000000000000000000000000000000000000000000000000000000000006"),
];

fn plus_p(b: &[u8]) -> Option<Vec<u8>> {
    let (s, c) = U256::from_be(b).add(p256::P);
    if c {
        None
    } else {
        Some(s.to_be().to_vec())
    }
}

/// public key bytes, valid or not
fn odd_point(r: &mut Rng, k: u64) -> Vec<u8> {
    let valid = crate::server::public_of(U256::from_u64(r.range(1, 3)));
    let cat = |a: &[u8], x: &[u8], y: &[u8]| [a, x, y].concat();
    let (px, py) = POINTS[(k / 15) as usize % POINTS.len()];
    let (px, py) = (hex(px), hex(py));
    match k % 15 {
        14 => near_point(r),
        0 => {
            // not reduced
            let x = plus_p(&px);
            let y = plus_p(&py);
            match (x, y) {
                (Some(x), _) => cat(&[4], &x, &py),
                (_, Some(y)) => cat(&[4], &px, &y),
                _ => cat(&[4], &px, &p256::P.to_be()),
            }
        }
        1 if r.one_in(2) => rare_point(r), // valid, extreme
        1 => cat(&[4], &px, &py),
        2 | 3 => {
            let mut v = valid;
            let n = v.len() as u64;
            let at = 1 + r.below(n - 1) as usize;
            v[at] ^= mask(r);
            v
        }
        4 => {
            let mut v = valid;
            v[0] = r.pick(&[0, 1, 2, 3, 5, 6, 7, 0x84, 0xff, 0x0c]);
            v
        }
        5 => {
            let mut v = valid;
            v[0] = 2 + (v[64] & 1);
            v.truncate(33);
            v
        }
        6 => {
            let mut v = valid;
            v[0] = 6 + (v[64] & 1);
            v
        }
        7 => vec![r.pick(&[0, 4, 2])],
        8 => {
            let mut v = valid;
            v.truncate(r.range(1, 64) as usize);
            v
        }
        9 => {
            let mut v = valid;
            v.extend({ let n = r.range(1, 66) as usize; r.bytes(n) });
            v
        }
        10 => r.pick(&[
            cat(&[4], &[0; 32], &[0; 32]),
            cat(&[4], &p256::P.to_be(), &[0; 32]),
            cat(&[4], &[0; 32], &p256::P.to_be()),
            cat(&[4], &[0xff; 32], &[0xff; 32]),
            cat(&[4], &p256::P.to_be(), &p256::P.to_be()),
            cat(&[4], &[0; 32], &{
                let mut o = [0u8; 32];
                o[31] = 1;
                o
            }),
        ]),
        11 => {
            let mut v = r.bytes(65);
            v[0] = 4;
            v
        }
        12 => {
            // swapped coordinates
            cat(&[4], &valid[33..65], &valid[1..33])
        }
        _ => {
            // negated y (valid), or y+1
            let y = U256::from_be(&valid[33..65]);
            let y2 = if r.one_in(2) { p256::P.sub(y).0 } else { y.add(U256::from_u64(1)).0 };
            cat(&[4], &valid[1..33], &y2.to_be())
        }
    }
}

/// one or two bits, or a byte
fn bits16(r: &mut Rng) -> u16 {
    match r.below(6) {
        0..=2 => 1 << r.below(16),
        3 | 4 => 1 << r.below(16) | 1 << r.below(16),
        _ => (r.range(1, 255) as u16) << (8 * r.below(2)),
    }
}

fn c04(r: &mut Rng, i: u64) -> Plan {
    let mut p = base(r);
    some_ops(r, &mut p);
    p.srv.lenient = true;
    if r.one_in(3) {
        compliant(r, &mut p.srv)
    }
    let k = i / 8;
    match i % 8 {
        0 => {
            let v = [0x0300, 0x0301, 0x0302, 0x0304, 0x0305, 0x0203, 0x0403, 0xfefd, 0xfeff, 0, 0xffff, 0x0002, 0x7f1c, 0x0313, 0x3303, 0x0003];
            p.srv.ver = if k % 3 == 0 { if r.one_in(4) { r.u64() as u16 } else { 0x0303 ^ bits16(r) } } else { v[(k / 3) as usize % v.len()] };
        }
        1 => {
            let v = [
                0xcca9, 0xccaa, 0xcca7, 0xcc13, 0xcc14, 0xcc15, 0xcca0, 0x00ff, 0, 0xc02f, 0xc030, 0xc013, 0xc014, 0x009c, 0x002f, 0x0035, 0x1301, 0x1303, 0x5600, 0xa8cc, 0xffff, 0x00a8, 0xcc00, 0x000a, 0xc027, 0xccac,
            ];
            p.srv.suite = if k % 3 == 0 { if r.one_in(4) { r.u64() as u16 } else { 0xcca8 ^ bits16(r) } } else { v[(k / 3) as usize % v.len()] };
        }
        2 => p.srv.comp = (k % 255 + 1) as u8,
        3 => p.srv.curve_type = (k % 256) as u8,
        4 => {
            let v = [24, 25, 22, 21, 1, 26, 29, 30, 0xff01, 0xff02, 0, 0x1700, 0xffff, 19, 20, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 0x0117];
            p.srv.curve = if k % 4 == 0 { if r.one_in(4) { r.u64() as u16 } else { 23 ^ bits16(r) } } else { v[(k as usize - k as usize / 4) % v.len()] };
        }
        5 | 6 => p.srv.key = KeySpec::Raw(Hex(odd_point(r, k * 2 + i % 2))),
        _ => {
            // two at once, or odd signature algorithms, or fields that look fine elsewhere
            for _ in 0..r.range(1, 2) {
                match r.below(6) {
                    0 => p.srv.ver = r.pick(&[0x0302, 0x0304, 0x0301]),
                    1 => p.srv.suite = r.pick(&[0xcca9, 0xc02f, 0xcc13]),
                    2 => p.srv.comp = r.range(1, 2) as u8,
                    3 => p.srv.curve = r.pick(&[24, 25, 29]),
                    4 => p.srv.key = KeySpec::Raw(Hex({ let k = r.u64() >> 8; odd_point(r, k) })),
                    _ => p.srv.sig_alg = r.pick(&[0x0201, 0x0403, 0x0101, 0x0000, 0x0804]),
                }
            }
        }
    }
    if r.one_in(10) {
        // the deviating hello or key exchange, and then a proper one
        let bad = flight_of(&p.srv);
        let d = Srv::default();
        let s = &mut p.srv;
        (s.ver, s.suite, s.comp, s.curve_type, s.curve) = (d.ver, d.suite, d.comp, d.curve_type, d.curve);
        if matches!(s.key, KeySpec::Raw(_)) {
            s.key = d.key
        }
        let good = flight_of(&p.srv);
        for at in [2usize, 0] {
            if bad.len() > at && bad[at] != good[at] {
                p.srv.edits1.push(MsgEdit { at: at as u32, op: MsgOp::InsertBefore(Item::Hs(Hex(bad[at].clone()))) });
            }
        }
        p.srv.canon_transcript = true;
        p.srv.canon_last = r.pct(75);
    }
    if r.one_in(8) {
        p.net = benign(r, 3000)
    }
    p
}

fn write_fault(r: &mut Rng, p: &Plan, i: u64) -> Fault {
    let mut q = p.clone();
    q.net.wfault.clear();
    let (c, _, _) = lengths(&q);
    let off = if r.one_in(3) { c - r.below(c.min(400).max(1)).min(c) } else { r.below(c + 1) };
    Fault { off, kind: kind(r, i), n: r.pick(&[1, 1, 1, 2, 3, 0]) }
}

/// records, past what small counters hold
fn long_run(r: &mut Rng, nth: u64, thorough: bool) -> u32 {
    match nth % 4 {
        1 => (1 << 20) + r.range(8, 5_000) as u32,
        3 if thorough => (1 << 21) + r.range(8, 5_000) as u32,
        _ if thorough => r.range(66_000, 300_000) as u32,
        _ => r.range(65_600, 135_000) as u32,
    }
}

/// application data that looks like alerts, cipher changes, messages or records, cut where those would be
fn lookalike(r: &mut Rng, p: &mut Plan, write: bool) {
    let mode = r.range(3, 7) as u8;
    let unit = [2u32, 2, 7, 12, 8][mode as usize - 3];
    let v: Vec<u32> = (0..r.range(1, 8)).map(|_| match r.below(4) {
        0 => unit,
        1 => r.pick(&[1, 2, 4, 16]),
        _ => unit * r.range(1, 3) as u32,
    }).collect();
    let total: u32 = v.iter().sum();
    p.content = mode;
    p.srv.content = mode;
    if write {
        for n in v {
            p.ops.push(if r.one_in(2) { Op::Write(n) } else { Op::WriteAll(n) });
        }
    } else {
        p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Send(v) });
        if r.one_in(2) {
            p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Close });
            p.ops.push(Op::ReadAll(vec![r.range(1, 20) as u32], 300));
            p.ops.push(Op::Read(2));
        } else {
            p.ops.push(Op::ReadN(total, r.range(1, 20) as u32));
            p.ops.push(Op::WriteAll(2));
        }
    }
    if r.one_in(3) {
        p.net = benign(r, 200);
    }
    p.ops.push(Op::Close);
}

/// a conversation of many short turns
fn long_chat(r: &mut Rng, p: &mut Plan) {
    let t = r.range(30, 300);
    let (tx, rx) = chat(r, p, t, false);
    p.net = benign(r, tx + rx);
    ending(r, p, tx);
}

/// around powers of two, up to some megabytes
fn huge(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => (1u32 << r.range(17, 23)) + r.below(5) as u32 - 2,
        1 => (1u32 << r.range(17, 23)) + 16_384 * r.below(3) as u32 + r.below(3) as u32,
        2 => 65_536 * r.range(1, 40) as u32 + r.below(3) as u32 - 1,
        _ => r.range(100_000, 3_000_000) as u32,
    }
}

/// four consecutive sizes; the cases of a run go through every size a record can have
fn sweep(i: u64) -> Vec<u32> {
    (0..4).map(|k| ((i / 5 * 4 + k) % 16_385) as u32).collect()
}

fn c05(r: &mut Rng, i: u64, thorough: bool) -> Plan {
    let mut p = base(r);
    if i % 5 == 4 {
        let more = if r.one_in(2) { 16_384 * r.range(1, 2) as u32 } else { 0 };
        for n in sweep(i) {
            p.ops.push(if r.one_in(2) { Op::Write(n) } else { Op::WriteAll(n + if r.one_in(4) { more } else { 0 }) });
        }
        if r.one_in(4) {
            p.net = benign(r, 50_000);
        }
        p.ops.push(Op::Close);
        return p;
    }
    if i % 400 == 113 {
        long_chat(r, &mut p);
        return p;
    }
    if i % 400 == 227 {
        // megabytes in one call
        for _ in 0..r.range(1, 3) {
            let n = huge(r);
            p.ops.push(if r.one_in(2) { Op::Write(n) } else { Op::WriteAll(n) });
        }
        p.ops.push(Op::WriteAll(7));
        p.net.wchunk = r.pick(&[vec![], vec![0, 1000], vec![65_536], vec![16_400, 0, 5]]);
        p.ops.push(Op::Close);
        return p;
    }
    if i % 64 == 43 {
        lookalike(r, &mut p, true);
        return p;
    }
    let long_every = if thorough { 5000 } else { 4000 };
    if i % long_every == long_every - 3 {
        // past every 8- and 16-bit counter
        p.ops.push(Op::WriteMany(long_run(r, i / long_every, thorough), 1));
        p.ops.push(Op::WriteAll(100));
        p.ops.push(Op::Close);
        return p;
    }
    if i % 16 == 7 {
        // contents that take the authenticator through rare states
        let mut tx = 0;
        for _ in 0..r.range(1, 6) {
            let n = craft_size(r);
            tx += n as u64;
            p.ops.push(Op::WriteCraft(n, r.u64() >> 32));
        }
        if r.one_in(2) {
            p.net = benign(r, tx);
        }
        p.ops.push(Op::Close);
        return p;
    }
    match i % 6 {
        0 => {
            let t = r.range(1, 4);
            let (tx, rx) = chat(r, &mut p, t, true);
            p.net = benign(r, tx + rx);
            ending(r, &mut p, tx);
        }
        1 => {
            // sizes around the record limit
            let mut tx = 0;
            for _ in 0..r.range(1, 3) {
                let n = match r.below(4) {
                    0 => r.range(16_380, 16_390),
                    1 => 16_384 * r.range(1, 5) + r.below(3) - 1,
                    2 => r.range(1, 200_000),
                    _ => r.range(0, 3),
                };
                tx += n;
                p.ops.push(Op::WriteAll(n as u32));
            }
            p.net = benign(r, tx);
            p.ops.push(Op::Close);
        }
        2 => {
            let n = r.range(1, 700) as u32;
            p.ops.push(Op::WriteMany(n, r.range(0, 20) as u32));
            p.net = benign(r, 60_000);
            p.ops.push(Op::Close);
        }
        3 | 4 => {
            // transport failures during writes, then more writes
            for _ in 0..r.range(1, 4) {
                let n = size(r, i % 12 == 3);
                p.ops.push(if r.one_in(3) { Op::Write(n) } else { Op::WriteAll(n) });
            }
            for _ in 0..r.range(1, 4) {
                p.ops.push(match r.below(5) {
                    0 => Op::Flush,
                    1 => Op::Close,
                    2 => Op::Write(r.range(1, 300) as u32),
                    _ => Op::WriteAll(r.range(1, 300) as u32),
                });
            }
            if i % 18 == 4 {
                // the failure strikes a late record of one write
                let n = r.range(16_385, 70_000) as u32;
                p.ops.insert(0, if r.one_in(3) { Op::WriteAll(n) } else { Op::Write(n) });
            }
            if r.one_in(3) {
                p.net.wchunk = pattern(r, &[0, 1, 7, 100], 4)
            }
            let f = write_fault(r, &p, i / 6);
            p.net.wfault.push(f);
            if r.one_in(4) {
                let f = write_fault(r, &p, i / 6 + 1);
                p.net.wfault.push(f);
            }
        }
        _ => {
            // echo
            p.srv.echo = true;
            let mut tx = 0u64;
            for _ in 0..r.range(1, 5) {
                let n = size(r, true).max(1);
                p.ops.push(Op::WriteAll(n));
                p.ops.push(Op::ReadN(n, r.range(1, 4000) as u32 + n / 50));
                tx += n as u64;
            }
            p.net = benign(r, tx * 2);
            p.ops.push(Op::Close);
        }
    }
    p
}

fn c06(r: &mut Rng, i: u64, thorough: bool) -> Plan {
    let mut p = base(r);
    if i % 5 == 4 {
        // every size of a record; every size of a remainder in every size of a buffer would be too much
        let v = sweep(i);
        let total: u32 = v.iter().sum();
        p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Send(v.clone()) });
        match r.below(4) {
            0 => p.ops.push(Op::ReadN(total, total)),
            1 => p.ops.push(Op::ReadN(total, v[0].max(total / 300).max(1))),
            2 => p.ops.push(Op::ReadN(total, (16_384 - v[0]).max(total / 300).max(1))),
            _ => p.ops.push(Op::ReadN(total, r.range(1 + total as u64 / 300, 16_384) as u32)),
        }
        if r.one_in(4) {
            p.net = benign(r, 50_000);
        }
        p.ops.push(Op::Close);
        return p;
    }
    if i % 400 == 113 {
        long_chat(r, &mut p);
        return p;
    }
    if i % 400 == 227 {
        // megabytes, into buffers of any size
        let recs = r.range(20, 150) as u32;
        let n = r.pick(&[16_384, 16_384, 16_383, 10_000]);
        p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::SendMany(recs, n) });
        if r.one_in(2) {
            p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::SendMany(r.range(1, 300) as u32, r.range(0, 40) as u32) });
        }
        p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Close });
        let total = (recs * n).min(1 << 20);
        p.ops.push(Op::ReadAll((0..r.range(1, 4)).map(|_| r.pick(&[total, 65_535, 65_536, 65_537, 131_072, 1 << 18, 20_000, 1 << 20])).collect(), 3000));
        p.ops.push(Op::Read(5));
        p.net.rchunk = r.pick(&[vec![], vec![0, 1000], vec![65_536], vec![16_400, 0, 5]]);
        return p;
    }
    if i % 64 == 43 {
        lookalike(r, &mut p, false);
        return p;
    }
    let long_every = if thorough { 5000 } else { 4000 };
    if i % long_every == long_every - 3 {
        p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::SendMany(long_run(r, i / long_every, thorough), 1) });
        p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Close });
        p.ops.push(Op::ReadAll(vec![997], 6_000_000));
        return p;
    }
    if i % 16 == 7 {
        // contents that take the authenticator through rare states
        let mut total = 0u64;
        for _ in 0..r.range(1, 6) {
            let n = craft_size(r);
            total += n as u64;
            p.srv.script.push(Step { after_rx: 0, delay: r.pick(&[0, 0, 10]), act: Act::Craft(n, r.u64() >> 32) });
        }
        p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Close });
        p.ops.push(Op::ReadAll(vec![r.range(1, 4000) as u32 + (total / 400) as u32], 3000));
        if r.one_in(2) {
            p.net = benign(r, total);
        }
        return p;
    }
    match i % 6 {
        0 => {
            let t = r.range(1, 5);
            let (tx, rx) = chat(r, &mut p, t, true);
            p.net = benign(r, tx + rx);
            ending(r, &mut p, tx);
        }
        1 | 2 => {
            // arbitrary partition, arbitrary buffers, then close
            let mut total = 0u64;
            for _ in 0..r.range(1, 4) {
                let v: Vec<u32> = (0..r.range(1, 8)).map(|_| if r.one_in(4) { 0 } else { rec_size(r, r.0 % 3 == 0) }).collect();
                total += v.iter().map(|x| *x as u64).sum::<u64>();
                p.srv.script.push(Step { after_rx: 0, delay: r.pick(&[0, 10, 3000]), act: Act::Send(v) });
            }
            if r.one_in(4) {
                p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::SendMany(r.range(1, 300) as u32, r.range(0, 3) as u32) });
            }
            let bufs: Vec<u32> = (0..r.range(1, 6)).map(|_| (r.size(40_000) as u32).max((total / 400) as u32)).collect();
            p.srv.script.push(Step { after_rx: 0, delay: r.pick(&[0, 9]), act: Act::Close });
            if r.one_in(2) {
                p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Fin });
            }
            p.ops.push(Op::ReadAll(bufs, 3000));
            p.ops.push(Op::Read(5));
            p.ops.push(Op::Read(5));
            p.net = benign(r, total);
        }
        3 => {
            // open connection: reads of exactly what is there must not wait
            let v: Vec<u32> = (0..r.range(1, 6)).map(|_| r.pick(&[0, 1, 2, 10, 100, 16_384, 300])).collect();
            let total: u32 = v.iter().sum();
            p.srv.script.push(Step { after_rx: 0, delay: 5, act: Act::Send(v) });
            let mut left = total;
            while left > 0 {
                let n = (r.size(left as u64) as u32).max(left / 50).max(1).min(left);
                p.ops.push(Op::Read(n));
                left -= n;
            }
            p.ops.push(Op::Read(0));
            p.ops.push(Op::WriteAll(r.range(1, 50) as u32));
            p.srv.script.push(Step { after_rx: 1, delay: 5, act: Act::Send(vec![7]) });
            p.ops.push(Op::Read(7));
            if r.one_in(3) {
                p.ops.push(Op::Read(3)); // waits for ever, legitimately
            }
            p.net = benign(r, total as u64);
        }
        4 => {
            // close interplay: data, empty records, close, bytes behind the close
            let v: Vec<u32> = (0..r.range(0, 4)).map(|_| r.pick(&[0, 0, 1, 40, 3000])).collect();
            let total: u32 = v.iter().sum();
            p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Send(v) });
            p.srv.script.push(Step { after_rx: 0, delay: 0, act: if r.one_in(3) { Act::Alert(2, 0) } else { Act::Close } });
            if r.one_in(3) {
                p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Send(vec![5, 20]) });
            }
            p.ops.push(Op::ReadAll(vec![r.range(1, 60) as u32 + total / 100, r.range(1, 2000) as u32], 500));
            for _ in 0..3 {
                p.ops.push(Op::Read(r.range(1, 30) as u32));
            }
            p.net = benign(r, total as u64);
        }
        _ => {
            // interleaved with writes
            let t = r.range(4, 9);
            let (tx, rx) = chat(r, &mut p, t, false);
            p.net = benign(r, tx + rx);
            ending(r, &mut p, tx);
        }
    }
    p
}

fn c07(r: &mut Rng, i: u64) -> (Vec<Plan>, Rel) {
    let mut p = base(r);
    let recs = r.range(1, 6);
    let small = r.pct(80);
    let v: Vec<u32> = (0..recs).map(|_| if small { r.range(0, 200) as u32 } else { rec_size(r, true) }).collect();
    let total: u32 = v.iter().sum();
    if r.one_in(3) {
        p.ops.push(Op::WriteAll(r.range(1, 100) as u32));
    }
    p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Send(v.clone()) });
    p.srv.script.push(Step { after_rx: 0, delay: 0, act: r.pick(&[Act::Close, Act::Close, Act::Fin, Act::Send(vec![3, 9])]) });
    if r.one_in(3) {
        p.srv.idle_eof = true
    }
    p.ops.push(Op::ReadAll(vec![r.range(1, 120) as u32 + total / 300], 600));
    p.ops.push(Op::Read(r.range(1, 10) as u32));
    p.ops.push(Op::Read(r.range(1, 30_000) as u32));
    tail(r, &mut p);
    p.ops.push(Op::Read(2));
    let k = i / 6;
    match i % 6 {
        0 | 1 => {
            // one bit anywhere in one record
            let at = 3 + (k % (recs + 1)) as u32;
            let len = v.get(at as usize - 3).copied().unwrap_or(2) + 21;
            let off = if r.one_in(3) { (k / 6) as u32 % len } else { r.below(len as u64) as u32 };
            if k % 3 == 2 {
                two_flips(r, &mut p, at, len);
            } else {
                p.atk.push(RecEdit { at, op: RecOp::Xor(off, mask(r)) });
            }
        }
        2 | 3 => {
            let at = 3 + r.below(recs + 1) as u32;
            p.atk.push(RecEdit { at, op: rec_op(r, 3 + recs) });
        }
        4 => {
            for _ in 0..r.range(2, 3) {
                let at = 3 + r.below(recs + 1) as u32;
                p.atk.push(RecEdit { at, op: rec_op(r, 3 + recs) });
            }
        }
        _ => {
            // records of another connection (other keys, or the same server again)
            let mut q = base(r);
            q.srv.script = p.srv.script.clone();
            q.ops = p.ops.clone();
            if r.one_in(2) {
                q.srv.seed = p.srv.seed
            }
            if r.one_in(2) {
                q.entropy.seed = p.entropy.seed
            }
            if q.srv.seed == p.srv.seed && q.entropy.seed == p.entropy.seed {
                q.srv.seed ^= 1 << 20;
            }
            let rel = Rel::Splice { rec: 3 + r.below(recs) as u32, at: 3 + r.below(recs) as u32, replace: r.one_in(2) };
            return (vec![q, p], rel);
        }
    }
    if r.one_in(4) {
        p.net = benign(r, total as u64)
    }
    (vec![p], Rel::Each)
}

fn c08(r: &mut Rng, i: u64) -> Plan {
    let mut p = base(r);
    let recs = r.range(0, 4);
    let v: Vec<u32> = (0..recs).map(|_| r.pick(&[0, 1, 5, 30, 100, 200])).collect();
    let total: u32 = v.iter().sum();
    if r.one_in(4) {
        p.ops.push(Op::WriteAll(r.range(1, 60) as u32));
    }
    if !v.is_empty() {
        p.srv.script.push(Step { after_rx: 0, delay: r.pick(&[0, 4]), act: Act::Send(v.clone()) });
    }
    let k = i / 8;
    let mut buf = r.range(1, 70) as u32;
    let step = |act: Act| Step { after_rx: 0, delay: 0, act };
    match i % 8 {
        0 => {
            // authenticated close, then anything
            p.srv.script.push(step(if r.one_in(2) { Act::Close } else { Act::Alert(2, 0) }));
            match r.below(6) {
                0 => p.srv.script.push(step(Act::Send(vec![10]))),
                1 => p.srv.script.push(step(Act::Bytes(Hex({ let n = r.range(1, 40) as usize; r.bytes(n) })))),
                2 => p.srv.script.push(step(Act::Fin)),
                3 => p.net.rfault.push(Fault { off: 345 + total as u64 + 21 * recs + 23, kind: kind(r, k), n: 0 }),
                4 => p.srv.script.push(step(Act::Alert(2, 40))),
                _ => {}
            }
        }
        1 | 2 => {
            // the stream ends or fails at every byte of the application phase
            p.srv.script.push(step(Act::Close));
            let l: u64 = v.iter().map(|x| *x as u64 + 21).sum::<u64>() + 23;
            let (_, hs, _) = lengths(&Plan { ops: vec![], srv: Srv { script: vec![], ..p.srv.clone() }, ..p.clone() });
            let off = hs + k % (l + 1);
            p.net.rfault.push(Fault { off, kind: kind(r, k / 7), n: r.pick(&[0, 0, 1, 2]) });
            if r.one_in(3) {
                buf = total + r.range(0, 50) as u32
            }
        }
        3 => {
            // attacker cuts or mutes
            p.srv.script.push(step(Act::Close));
            p.atk.push(RecEdit { at: 3 + r.below(recs + 1) as u32, op: if r.pct(80) { RecOp::Cut } else { RecOp::Mute } });
            p.srv.idle_eof = r.one_in(2);
        }
        4 => {
            // stream ends without close
            p.srv.script.push(step(Act::Fin));
        }
        5 => {
            // alerts of all kinds, malformed alerts
            let a = match r.below(6) {
                0..=2 => Act::Alert(r.pick(&[1, 2]), (k % 120) as u8),
                3 => Act::Rec { ct: 21, body: Hex(r.pick(&[vec![], vec![1], vec![0], vec![1, 0, 1, 0], vec![0, 0], vec![3, 0], vec![255, 0], vec![2, 40, 1, 0], vec![1, 0, 0]])), prot: true, ver: 0x0303 },
                4 => Act::Alert((k % 256) as u8, 0),
                _ => Act::Rec { ct: 21, body: Hex({ let n = r.range(0, 5) as usize; r.bytes(n) }), prot: true, ver: 0x0303 },
            };
            p.srv.script.push(step(a));
            if r.one_in(2) {
                p.srv.script.push(step(Act::Send(vec![8])));
                p.srv.script.push(step(Act::Close));
            }
        }
        6 => {
            // forged closes
            let body = r.pick(&[vec![1, 0], vec![2, 0], vec![0; 18], vec![1, 0, 0, 0]]);
            p.srv.script.push(step(Act::Close));
            p.atk.push(RecEdit { at: 3 + r.below(recs + 1) as u32, op: RecOp::Inject { ct: 21, ver: 0x0303, body: Hex(body) } });
        }
        _ => {
            // unexpected records behind good data
            let a = match r.below(4) {
                0 => Act::Rec { ct: 20, body: Hex(vec![1]), prot: true, ver: 0x0303 },
                1 => Act::Rec { ct: 22, body: Hex(hs_msg(r.pick(&HS_TYPES), &[])), prot: true, ver: 0x0303 },
                2 => Act::Rec { ct: r.pick(&[0, 24, 99]), body: Hex(vec![1, 2, 3]), prot: true, ver: 0x0303 },
                _ => Act::Bytes(Hex({ let n = r.range(1, 60) as usize; r.bytes(n) })),
            };
            p.srv.script.push(step(a));
            if r.one_in(2) {
                p.srv.script.push(step(Act::Close));
            }
        }
    }
    match r.below(3) {
        0 => p.ops.push(Op::ReadAll(vec![buf], 400)),
        1 => {
            if total > 0 {
                p.ops.push(Op::ReadN(total, buf));
            }
            p.ops.push(Op::Read(r.range(1, 9) as u32));
        }
        _ => {
            p.ops.push(Op::Read(total + r.range(0, 3) as u32));
            p.ops.push(Op::Read(1));
        }
    }
    p.ops.push(Op::Read(r.range(1, 9) as u32));
    p.ops.push(Op::Read(1));
    tail(r, &mut p);
    if r.one_in(4) {
        let f = p.net.rfault.clone();
        p.net = benign(r, total as u64 + 700);
        p.net.rfault = f;
    }
    p
}

fn random_record(r: &mut Rng, max: u64) -> Vec<u8> {
    let ct = r.pick(&[20u8, 21, 22, 22, 22, 23, 24, 0]);
    let ver = r.pick(&[0x0303u16, 0x0303, 0x0303, 0x0301, 0x0300, 0x0304, 0xffff]);
    let n = r.size(max) as usize;
    let body = match ct {
        22 if r.pct(80) => {
            let ty = r.pick(&[0u8, 1, 2, 2, 2, 11, 12, 13, 14, 16, 20]);
            let b = r.bytes(n);
            let mut m = hs_msg(ty, &b);
            if r.one_in(4) {
                let l = r.pick(&[0u32, 1, 0xffffff, 0x100000, 0xffff, 5]);
                m[1] = (l >> 16) as u8;
                m[2] = (l >> 8) as u8;
                m[3] = l as u8;
            }
            m
        }
        21 if r.pct(70) => vec![r.pick(&[0u8, 1, 2, 3, 255]), r.u64() as u8],
        20 if r.pct(70) => vec![1],
        _ => r.bytes(n),
    };
    let mut v = crate::server::raw_rec(ct, ver, &body[..body.len().min(18_432)]);
    if r.one_in(10) {
        let l = r.pick(&[0u16, 1, 0xffff, 18_432, 18_433, 16_384, 16_385, 40]);
        v[3..5].copy_from_slice(&l.to_be_bytes());
    }
    v
}

fn c09(r: &mut Rng, i: u64) -> Plan {
    let mut p = base(r);
    p.srv.idle_eof = r.pct(60);
    let k = i / 10;
    let step = |act: Act| Step { after_rx: 0, delay: 0, act };
    p.ops.push(Op::ReadAll(vec![r.range(1, 3000) as u32], 2000));
    p.ops.push(Op::WriteAll(30));
    p.ops.push(Op::Read(10));
    tail(r, &mut p);
    match i % 10 {
        0 => {
            let n = r.size(3000) as usize;
            let mut b = r.bytes(n);
            if r.one_in(2) && n > 0 {
                b[0] = r.pick(&[20, 21, 22, 23]);
            }
            p.srv.raw = Some(Hex(b));
        }
        1 => {
            let mut b = vec![];
            for _ in 0..r.range(1, 6) {
                b.extend(random_record(r, 400))
            }
            p.srv.raw = Some(Hex(b));
        }
        2 | 3 | 4 => {
            // grammar-aware mutation of the flights
            if r.one_in(2) {
                compliant(r, &mut p.srv)
            }
            p.srv.lenient = r.one_in(2);
            for _ in 0..r.range(1, 2) {
                let at = (k % 4) as u32;
                let op = match r.below(10) {
                    0..=2 => MsgOp::Xor((k / 4) as u32 % 260, mask(r)),
                    3 => MsgOp::Xor(r.below(60) as u32, 0xff),
                    4 => MsgOp::Truncate((k / 4) as u32 % 300),
                    5 => MsgOp::Remove(r.below(150) as u32, r.range(1, 40) as u32),
                    6 => MsgOp::InsertRaw(r.below(150) as u32, Hex({ let n = r.range(1, 9) as usize; r.bytes(n) })),
                    _ => msg_op(r),
                };
                p.srv.edits1.push(MsgEdit { at, op });
            }
            if r.one_in(4) {
                p.srv.edits2.push(MsgEdit { at: r.below(3) as u32, op: msg_op(r) });
            }
        }
        5 => {
            // with valid keys, after the handshake
            for _ in 0..r.range(1, 4) {
                let a = match r.below(9) {
                    0 => Act::Rec { ct: r.u64() as u8, body: Hex({ let n = r.size(60) as usize; r.bytes(n) }), prot: true, ver: 0x0303 },
                    1 => Act::Rec { ct: 21, body: Hex({ let n = r.below(4) as usize; r.bytes(n) }), prot: true, ver: 0x0303 },
                    2 => Act::Rec { ct: 22, body: Hex(hs_msg(r.pick(&HS_TYPES), &{ let n = r.size(80) as usize; r.bytes(n) })), prot: true, ver: 0x0303 },
                    3 => Act::Rec { ct: 20, body: Hex(r.pick(&[vec![1], vec![], vec![2], vec![1, 1]])), prot: true, ver: 0x0303 },
                    4 => Act::RecLen { ct: r.pick(&[20, 21, 22, 23]), n: r.pick(&[0, 1, 16_384, 16_385, 16_400, 17_000, 18_416, 18_417, 20_000]) },
                    5 => Act::Rec { ct: r.pick(&[20, 21, 22, 23]), body: Hex({ let n = r.size(40) as usize; r.bytes(n) }), prot: false, ver: r.pick(&[0x0303, 0x0301]) },
                    6 => Act::Bytes(Hex({ let n = r.size(60) as usize; r.bytes(n) })),
                    7 => Act::Alert(r.u64() as u8, r.u64() as u8),
                    _ => Act::Send(vec![r.size(300) as u32]),
                };
                p.srv.script.push(step(a));
            }
        }
        6 => {
            // floods
            if k % 150 == 149 {
                // long enough to overflow a stack if records are skipped by recursion
                let n = r.range(60_000, 90_000) as u32;
                match r.below(3) {
                    0 => {
                        p.srv.script.push(step(Act::SendMany(n, 0)));
                        p.srv.script.push(step(Act::Send(vec![3])));
                    }
                    1 => p.srv.raw = Some(Hex([22u8, 3, 3, 0, 0].repeat(n as usize))),
                    _ => {
                        let at = r.below(5) as u32;
                        p.atk.push(RecEdit { at, op: RecOp::InjectRaw(Hex([22u8, 3, 3, 0, 0].repeat(n as usize))) });
                    }
                }
                return p;
            }
            let a = match r.below(6) {
                0 => Act::SendMany(r.range(100, 3000) as u32, 0),
                1 => Act::SendMany(r.range(100, 1500) as u32, 1),
                2 => Act::RecLen { ct: 22, n: 16_384 },
                3 => Act::Rec { ct: 22, body: Hex(hs_msg(0, &[]).repeat(r.range(1, 3000) as usize)), prot: true, ver: 0x0303 },
                4 => Act::Rec { ct: 22, body: Hex([&[r.pick(&[0u8, 1, 20]), 0xff, 0xff, 0xff][..], &r.bytes(20)].concat()), prot: true, ver: 0x0303 },
                _ => Act::SendMany(60, 16_384),
            };
            for _ in 0..r.range(1, 3) {
                p.srv.script.push(step(a.clone()));
            }
        }
        7 => {
            // length fields at their extremes, declared but not delivered
            let ty = r.pick(&[2u8, 11, 12, 13, 14, 20]);
            let mut m = vec![ty, r.pick(&[0u8, 0xff, 0x0f, 1]), r.pick(&[0u8, 0xff]), r.pick(&[0u8, 0xff, 40])];
            m.extend({ let n = r.size(200) as usize; r.bytes(n) });
            let at = r.below(5) as u32;
            p.srv.edits1.push(MsgEdit { at, op: MsgOp::InsertBefore(Item::Rec { ct: 22, ver: 0x0303, body: Hex(m) }) });
        }
        8 => {
            // record-level attacker everywhere
            for _ in 0..r.range(1, 3) {
                let at = r.below(6) as u32;
                p.atk.push(RecEdit { at, op: rec_op(r, 5) });
            }
            p.srv.script.push(step(Act::Send(vec![20, 0, 100])));
            p.srv.pack = packing(r);
        }
        _ => {
            // many small handshake records; big certificate lists
            p.srv.pack = vec![r.range(1, 3) as u32];
            p.srv.certs = (0..r.range(1, 60)).map(|_| r.range(0, 60) as u32).collect();
            if r.one_in(3) {
                p.srv.certs = vec![0];
            }
            if r.one_in(3) {
                let l = r.below(6) as usize;
                let mut b = r.bytes(l);
                if r.one_in(2) && b.len() >= 2 {
                    b[0] = 0;
                    b[1] = (l - 2) as u8;
                }
                p.srv.ext = Ext::Raw(Hex(b));
            }
            if r.one_in(3) {
                p.srv.ext = Ext::Unknown(r.pick(&[0, 10, 11, 13, 16, 23, 35, 0xff01]), r.size(300) as u16);
            }
            if r.one_in(4) {
                // no end of extensions
                let kinds: [&[u8]; 5] = [&[0, 11, 0, 2, 1, 0], &[0, 10, 0, 4, 0, 2, 0, 23], &[0, 13, 0, 4, 0, 2, 4, 1], &[0, 23, 0, 0], &[255, 1, 0, 1, 0]];
                let some = r.range(1, 5) as usize;
                let from = r.below(5) as usize;
                let n = match r.below(3) {
                    0 => r.range(2, 80),
                    _ => count(r) as u64,
                };
                let body: Vec<u8> = (0..n as usize).flat_map(|i| kinds[(from + i % some) % 5].to_vec()).collect();
                let mut b = vec![(body.len() >> 8) as u8, body.len() as u8];
                b.extend(body);
                p.srv.ext = Ext::Raw(Hex(b));
            }
        }
    }
    if r.one_in(5) {
        p.net = benign(r, 3000)
    }
    p
}

fn c10(r: &mut Rng, i: u64) -> Plan {
    let mut p = base(r);
    if i % 5000 == 4999 {
        p.ops.push(Op::WriteMany(long_run(r, i / 5000, false), 1));
        p.ops.push(Op::Close);
        return p;
    }
    for _ in 0..r.range(1, 5) {
        p.ops.push(match r.below(8) {
            0..=3 => Op::WriteAll(size(r, i % 16 == 0).max(8)),
            4 => Op::Write(r.range(8, 100) as u32),
            5 => Op::Flush,
            6 => Op::WriteMany(r.range(1, 40) as u32, r.range(8, 20) as u32),
            _ => Op::WriteAll(20_000),
        });
    }
    match i % 6 {
        5 => {
            // the peer misbehaves after the client switched its cipher on and before it switched its own
            if r.one_in(3) {
                p.srv.lenient = true
            }
            p.srv.eager = r.pick(&[0, 0, 0, 1, 2, 3]);
            for _ in 0..r.range(1, 2) {
                let at = r.below(3) as u32;
                let op = match r.below(6) {
                    0 => MsgOp::InsertBefore(stray(r)),
                    1 => MsgOp::InsertBefore(Item::Alert(r.pick(&[1, 2]), r.u64() as u8)),
                    2 => MsgOp::InsertBefore(Item::Rec { ct: r.pick(&[20, 21, 22, 23, 24, 0]), ver: r.pick(&[0x0303, 0x0301]), body: Hex({ let n = r.size(40) as usize; r.bytes(n) }) }),
                    3 => MsgOp::Replace(Item::Ccs(Hex(r.pick(&[vec![2], vec![], vec![1, 1], vec![0]])))),
                    _ => msg_op(r),
                };
                p.srv.edits2.push(MsgEdit { at, op });
            }
        }
        0 | 1 | 2 => {
            for _ in 0..r.range(1, 4) {
                p.ops.push(match r.below(5) {
                    0 => Op::Close,
                    1 => Op::Flush,
                    _ => Op::WriteAll(r.range(8, 200) as u32),
                });
            }
            if r.one_in(3) {
                p.net.wchunk = pattern(r, &[0, 1, 4, 5, 7, 100], 4)
            }
            for _ in 0..r.range(1, 2) {
                let f = write_fault(r, &p, i / 6);
                p.net.wfault.push(f);
            }
        }
        3 => {
            // failed reads and alerts in between
            let a = r.pick(&[Act::Bytes(Hex(vec![23, 3, 3, 0, 20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20])), Act::Alert(2, 40), Act::Close, Act::Rec { ct: 20, body: Hex(vec![1]), prot: true, ver: 0x0303 }]);
            p.srv.script.push(Step { after_rx: 0, delay: 0, act: a });
            p.ops.push(Op::Read(5));
            p.ops.push(Op::WriteAll(40));
            p.ops.push(Op::Close);
            p.ops.push(Op::WriteAll(40));
            p.ops.push(Op::Close);
        }
        _ => {
            p.net = benign(r, 50_000);
            p.ops.push(Op::Close);
            p.ops.push(Op::WriteAll(40));
            tail(r, &mut p);
        }
    }
    p
}

fn c11(r: &mut Rng, i: u64) -> Plan {
    let j = r.u64() >> 20;
    let mut p = match i % 7 {
        0 => c03(r, j),
        1 => c04(r, j),
        2 => ({ let k = j - j % 6 + r.below(5); c07(r, k) }).0.pop().unwrap_or_default(),
        3 => c08(r, j),
        4 => { let k = j - j % 10 + r.range(1, 5); c09(r, k) },
        5 => c15(r, j),
        _ => {
            let mut p = ({ let k = j - j % 10 + r.pick(&[0, 1, 3, 5, 7, 9]); c02(r, k) }).0.pop().unwrap_or_default();
            p.srv.lenient = true;
            p
        }
    };
    p.srv.idle_eof = false;
    if i / 7 % 5 == 2 {
        // what is not flushed stays behind
        p.net.hold = true;
        if r.one_in(4) {
            p.net.hold_cap = r.pick(&[1, 7, 20, 100]);
        }
    }
    p
}

fn c12(r: &mut Rng, i: u64) -> (Vec<Plan>, Rel) {
    let mut p = base_wide(r);
    p.srv.seed = (p.srv.seed & !255) | r.below(2);
    echo_check(r, &mut p);
    if i % 60 == 0 {
        // every bit matters
        p.ops.clear();
        p.srv.script.clear();
        return (vec![p], Rel::EntropyMatters);
    }
    if i % 30 == 15 {
        let v: Vec<Plan> = (0..44)
            .map(|_| {
                let mut q = p.clone();
                q.ops.clear();
                q.srv.script.clear();
                q.entropy.seed = r.u64() >> 8;
                q
            })
            .collect();
        return (v, Rel::EntropySpread);
    }
    if i % 30 == 22 {
        // unusable candidates, each different: what takes their place is fresh, too
        let mut v = vec![];
        for k in 0..8u64 {
            let mut q = p.clone();
            q.ops.clear();
            q.srv.script.clear();
            q.entropy.seed = r.u64() >> 8;
            let d = match k {
                0 => [0; 32],
                1 => [0xff; 32],
                _ => p256::N.add(U256::from_u64(if k == 2 { 0 } else { r.below(1 << 30) * 8 + k })).0.to_be(),
            };
            let mut b = d.to_vec();
            if i % 60 < 30 {
                b.reverse();
            }
            q.entropy.set.push((32, Hex(b)));
            v.push(q);
        }
        return (v, Rel::EntropySpread);
    }
    match i % 3 {
        0 => entropy_scalar(r, &mut p.entropy),
        1 => {
            p.entropy.fail_at = Some(r.below(70) as u32);
            p.entropy.fail_n = r.pick(&[0, 1, 1, 2]);
            if r.one_in(2) {
                p.entropy.fail_at = Some((i / 3 % 64) as u32);
            }
            p.net.tcp = r.one_in(4);
        }
        _ => {
            // the first candidate scalar is unusable, the next one is fine
            let bad = r.pick(&[[0u8; 32], [0xff; 32], p256::N.to_be(), p256::N.add(U256::from_u64(1)).0.to_be()]);
            let le: Vec<u8> = bad.iter().rev().copied().collect();
            let be: Vec<u8> = bad.to_vec();
            p.entropy.set.push((32, Hex(if r.pct(70) { le.clone() } else { be })));
            if r.one_in(3) {
                p.entropy.set.push((64, Hex(le)));
            }
        }
    }
    (vec![p], Rel::Each)
}

fn c13(r: &mut Rng, i: u64) -> Plan {
    if i % 9 == 4 {
        // failures announced by an alert
        let j = r.u64() >> 20;
        let mut p = c11(r, j);
        p.net.hold = true;
        return p;
    }
    let mut p = base(r);
    p.net.hold = true;
    if r.one_in(3) {
        p.net.hold_cap = r.pick(&[1, 20, 64, 100, 150, 8192, 16_384]);
    }
    if r.one_in(4) {
        p.net.wchunk = pattern(r, &[0, 1, 7, 100], 4);
        p.net.wintr = vec![0, 1];
    }
    if r.one_in(4) {
        p.net.rchunk = pattern(r, &[0, 1, 7, 100], 4);
        p.net.cdelay = vec![0, 100];
    }
    if r.one_in(3) {
        compliant(r, &mut p.srv)
    }
    let mut tx = 0u64;
    for _ in 0..r.range(0, 4) {
        let n = size(r, i % 10 == 0);
        tx += n as u64;
        p.ops.push(Op::WriteAll(n));
        if r.one_in(2) {
            p.ops.push(Op::Flush);
            if r.one_in(2) && tx > 0 {
                // the peer answers what it got
                p.srv.script.push(Step { after_rx: tx, delay: 0, act: Act::Send(vec![11]) });
                p.ops.push(Op::Read(11));
            }
        }
    }
    match i % 4 {
        0 => {
            p.ops.push(Op::Close);
        }
        1 => {
            p.ops.push(Op::Flush);
            p.ops.push(Op::Close);
            tail(r, &mut p);
        }
        2 => {
            // flush failures
            let mut q = p.clone();
            q.ops.push(Op::Flush);
            q.ops.push(Op::Close);
            let (_, _, fl) = lengths(&q);
            p = q;
            p.net.ffault.push(Fault { off: r.below(fl.max(1)), kind: { let k = r.below(11); kind(r, k) }, n: r.pick(&[0, 1, 1, 2]) });
            tail(r, &mut p);
        }
        _ => {
            p.ops.push(Op::Flush);
        }
    }
    p
}

fn strip_faults(p: &mut Plan) {
    p.net = Net { hold: p.net.hold, hold_cap: p.net.hold_cap, ..Net::default() };
    p.entropy.fail_at = None;
}

fn c14(r: &mut Rng, i: u64) -> (Vec<Plan>, Rel) {
    let j = r.u64() >> 20;
    let mut p = match i % 10 {
        0 | 1 => c01(r, j, false),
        2 => c03(r, j),
        3 => c04(r, j),
        4 => ({ let k = j - j % 6 + r.below(5); c07(r, k) }).0.pop().unwrap_or_default(),
        5 => c08(r, j),
        6 => c09(r, j),
        7 => { let k = (j - j % 6 + r.pick(&[0, 1, 2, 5])) % 3000; c05(r, k, false) },
        8 => c06(r, j % 3000, false),
        _ => ({ let k = j - j % 10 + r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 9]); c02(r, k) }).0.pop().unwrap_or_default(),
    };
    strip_faults(&mut p);
    // wide pools are for C01
    p.entropy.seed %= 64;
    p.entropy.set.clear();
    p.srv.reply_close = false;
    let mut q = p.clone();
    let total = lengths(&p);
    let total = total.0 + total.1;
    q.net = benign(r, total);
    if q.net.rchunk.is_empty() && q.net.seg.is_empty() && q.net.rintr.is_empty() {
        q.net.rchunk = if total < 40_000 { vec![1] } else { vec![777, 3] };
        q.net.rintr = vec![0, 1];
    }
    if total > 300_000 {
        q.net.window = 0;
    }
    (vec![p, q], Rel::SameOutcome)
}

fn c15(r: &mut Rng, i: u64) -> Plan {
    let mut p = base(r);
    let k = i / 5;
    let step = |act: Act| Step { after_rx: 0, delay: 0, act };
    let edges = [0u32, 1, 15, 16, 17, 16_383, 16_384, 16_385, 16_386, 16_400, 16_401, 17_000, 18_415, 18_416, 18_417, 18_432, 18_433, 20_000, 32_768, 65_000, 65_519];
    match i % 5 {
        0 => {
            // content sizes with valid protection
            let before = r.below(3) as usize;
            p.srv.script.push(step(Act::Send((0..before).map(|_| r.range(1, 40) as u32).collect())));
            let n = if r.pct(70) { edges[k as usize % edges.len()] } else { r.range(16_370, 18_450) as u32 };
            let ct = if r.pct(70) { 23 } else { r.pick(&[22, 21, 20]) };
            p.srv.script.push(step(if ct == 23 { Act::Send(vec![n]) } else { Act::RecLen { ct, n } }));
            p.srv.script.push(step(Act::Send(vec![4])));
            p.srv.script.push(step(Act::Close));
            p.ops.push(Op::ReadAll(vec![r.pick(&[100, 1000, 20_000, 16_384])], 1000));
            p.ops.push(Op::Read(3));
            p.ops.push(Op::WriteAll(9));
        }
        1 => {
            // header lengths, content absent or unauthentic
            let n = if r.pct(60) { edges[k as usize % edges.len()].min(65_535) } else { r.range(18_425, 18_440) as u32 } as u16;
            let have = r.pick(&[0usize, 1, 100, n as usize]).min(n as usize);
            let mut b = vec![r.pick(&[23u8, 23, 22, 21]), 3, 3, (n >> 8) as u8, n as u8];
            b.extend(r.bytes(have));
            p.srv.script.push(step(Act::Send(vec![20])));
            p.srv.script.push(step(Act::Bytes(Hex(b))));
            p.ops.push(Op::ReadN(20, 20));
            p.ops.push(Op::Read(10));
            p.ops.push(Op::Read(10));
            p.srv.idle_eof = r.one_in(3);
        }
        2 => {
            // during the handshake
            let n = if r.pct(60) { r.pick(&[16_383u32, 16_384, 16_385, 16_386, 18_431, 18_432, 18_433, 20_000, 65_535]) } else { r.range(16_380, 18_440) as u32 };
            let have = r.pick(&[0u32, 1, 100, n, n]).min(n);
            let mut b = vec![22u8, 3, 3, (n >> 8) as u8, n as u8];
            // what would be a fitting message if it were not too long
            let mut body = hs_msg(11, &{
                let l = have.max(10) as usize - 4;
                let mut c = vec![0u8; l];
                if l >= 6 {
                    let a = l - 3;
                    c[0] = (a >> 16) as u8;
                    c[1] = (a >> 8) as u8;
                    c[2] = a as u8;
                    let a = l - 6;
                    c[3] = (a >> 16) as u8;
                    c[4] = (a >> 8) as u8;
                    c[5] = a as u8;
                }
                c
            });
            body.truncate(have as usize);
            body.resize(have as usize, 0);
            b.extend(body);
            match r.below(3) {
                0 => {
                    p.srv.raw = Some(Hex(b));
                    p.srv.idle_eof = r.one_in(3);
                }
                1 => {
                    let body = b[5..].to_vec();
                    p.srv.edits1.push(MsgEdit { at: 1, op: MsgOp::Replace(Item::Rec { ct: 22, ver: 0x0303, body: Hex(body) }) });
                }
                _ => {
                    p.srv.edits1.push(MsgEdit { at: r.below(5) as u32, op: MsgOp::InsertBefore(Item::Rec { ct: r.pick(&[20, 21, 22, 23]), ver: 0x0303, body: Hex(vec![0; n as usize]) }) });
                }
            }
            some_ops(r, &mut p);
        }
        3 => {
            // what the client emits
            let mut tx = 0;
            for _ in 0..r.range(1, 3) {
                let n = match r.below(3) {
                    0 => 16_384 * r.range(1, 4) + r.below(5) - 2,
                    1 => r.range(1, 150_000),
                    _ => r.range(0, 20),
                };
                tx += n;
                p.ops.push(if r.one_in(2) { Op::WriteAll(n as u32) } else { Op::Write(n as u32) });
            }
            p.ops.push(Op::Close);
            if r.one_in(3) {
                p.net = benign(r, tx)
            }
        }
        _ => {
            // too short for an authentication code; full-size handshake records
            if r.one_in(2) {
                let n = (k % 18) as usize;
                let ct = r.pick(&[23u8, 22, 21, 20]);
                let mut b = vec![ct, 3, 3, 0, n as u8];
                b.extend(r.bytes(n));
                p.srv.script.push(step(Act::Send(vec![20])));
                p.srv.script.push(step(Act::Bytes(Hex(b))));
                p.srv.script.push(step(Act::Send(vec![20])));
                p.ops.push(Op::ReadN(20, 20));
                p.ops.push(Op::Read(10));
                p.ops.push(Op::Read(10));
            } else {
                p.srv.certs = vec![r.pick(&[16_384, 40_000, 16_370, 33_000])];
                p.srv.pack = r.pick(&[vec![16_384], vec![16_383], vec![0], vec![16_384, 1]]);
                echo_check(r, &mut p);
            }
        }
    }
    p
}

/// a few base conversations; failures are aimed at every byte of them
fn fault_base(k: u64) -> Plan {
    let mut p = Plan::default();
    p.entropy.seed = k % 3;
    p.srv.seed = 256 * k + k % 3;
    let step = |after_rx: u64, act: Act| Step { after_rx, delay: 0, act };
    match k % 6 {
        0 => {}
        1 => {
            p.srv.script = vec![step(10, Act::Send(vec![20, 0, 30])), step(10, Act::Close)];
            p.ops = vec![Op::WriteAll(10), Op::ReadAll(vec![20], 50)];
        }
        2 => {
            p.srv.pack = vec![u32::MAX];
            p.ops = vec![Op::WriteAll(40), Op::WriteAll(40), Op::Close];
        }
        3 => {
            p.srv.certs = vec![700];
            p.srv.pack = vec![200, 50];
            p.srv.script = vec![step(5, Act::Send(vec![100])), step(45, Act::Send(vec![9]))];
            p.ops = vec![Op::WriteAll(5), Op::ReadN(100, 33), Op::WriteAll(40), Op::ReadN(9, 9), Op::Close];
        }
        4 => {
            p.srv.sid_len = 32;
            p.srv.ext = Ext::PointFormats(Hex(vec![0]));
            p.srv.script = vec![step(0, Act::Send(vec![60, 60, 60])), step(0, Act::Close)];
            p.ops = vec![Op::ReadAll(vec![100], 50), Op::Close];
        }
        _ => {
            p.srv.echo = true;
            p.ops = vec![Op::WriteAll(33), Op::ReadN(33, 10), Op::WriteAll(50), Op::Flush, Op::ReadN(50, 50)];
        }
    }
    p
}

fn c16(r: &mut Rng, i: u64) -> Plan {
    if i % 6 == 0 && i / 6 % 4 == 3 {
        // longer conversations, anywhere
        let mut p = base(r);
        if r.one_in(3) {
            compliant(r, &mut p.srv)
        }
        let t = r.range(1, 4);
        chat(r, &mut p, t, true);
        let (c, s, fl) = lengths(&p);
        let n = r.pick(&[0, 1, 1, 2]);
        let kind = kind(r, i / 24);
        match r.below(8) {
            0..=3 => p.net.rfault.push(Fault { off: r.below(s + 1), kind, n }),
            4..=6 => p.net.wfault.push(Fault { off: r.below(c + 1), kind, n }),
            _ => p.net.ffault.push(Fault { off: r.below(fl.max(1)), kind, n }),
        }
        if r.one_in(2) {
            p.net.rchunk = pattern(r, &[0, 0, 1, 100, 1000], 4);
        }
        tail(r, &mut p);
        return p;
    }
    // base and direction by index, offset enumerated
    let b = i % 6;
    let k = i / 6;
    let mut p = fault_base(b);
    let (c, s, fl) = lengths(&p);
    let total = c + 1 + s + 1;
    let x = k % total;
    let round = k / total;
    let n = if round % 4 == 3 { r.pick(&[1, 2, 3]) } else { 0 };
    let kind = kind(r, round + x);
    if x <= c {
        p.net.wfault.push(Fault { off: x, kind, n });
    } else {
        p.net.rfault.push(Fault { off: x - c - 1, kind, n });
    }
    if round % 5 == 4 {
        // time-outs instead: the server falls silent
        p.net.rfault.clear();
        p.net.wfault.clear();
        p.net.rtimeout = r.range(1, 500) as u32;
        p.net.delay = pattern(r, &[0, 0, 0, 300, 900], 4);
        p.net.seg = pattern(r, &[0, 10, 50], 3);
    } else if round % 5 == 2 && r.one_in(3) {
        // the server's stream ends
        p.net.rfault.clear();
        p.net.wfault.clear();
        p.atk.push(RecEdit { at: r.below(6) as u32, op: RecOp::Cut });
    } else if round % 5 == 3 && r.one_in(4) && fl > 0 {
        p.net.rfault.clear();
        p.net.wfault.clear();
        p.net.ffault.push(Fault { off: r.below(fl), kind, n });
    }
    if r.one_in(3) {
        p.net.rchunk = pattern(r, &[0, 1, 3, 50], 4);
        p.net.wchunk = pattern(r, &[0, 1, 3, 50], 4);
    }
    if r.one_in(4) {
        p.net.rintr = vec![0, 1, 0];
        p.net.wintr = vec![1, 0];
    }
    tail(r, &mut p);
    p
}

fn c17(r: &mut Rng, i: u64) -> Plan {
    let mut p = base(r);
    let t = r.range(0, 3);
    let (mut tx, mut rx) = chat(r, &mut p, t, i % 9 == 0);
    let k = i % 6;
    match k {
        0 | 1 => {
            p.ops.push(Op::Close);
            for _ in 0..r.range(1, 6) {
                p.ops.push(match r.below(5) {
                    0 => Op::Close,
                    1 => Op::Flush,
                    2 => Op::Read(r.range(0, 9) as u32),
                    3 => Op::Write(r.range(1, 40) as u32),
                    _ => Op::WriteAll(r.range(1, 40) as u32),
                });
            }
            p.srv.reply_close = r.one_in(2);
            p.srv.idle_eof = r.one_in(2);
        }
        2 => {
            // the peer closes first
            p.srv.script.push(Step { after_rx: tx, delay: 2, act: Act::Close });
            p.ops.push(Op::ReadAll(vec![40], 10));
            if r.one_in(2) {
                p.ops.push(Op::WriteAll(12));
            }
            p.ops.push(Op::Close);
            tail(r, &mut p);
        }
        3 => {
            // fatal failure first
            let a = match r.below(6) {
                0 => Act::Alert(2, r.pick(&[10, 20, 40, 80])),
                1 => Act::Bytes(Hex([&[23u8, 3, 3, 0, 30][..], &r.bytes(30)].concat())),
                2 => Act::Rec { ct: 20, body: Hex(vec![1]), prot: true, ver: 0x0303 },
                3 => Act::Rec { ct: 22, body: Hex(hs_msg(r.pick(&[1, 2, 14, 20]), &[])), prot: true, ver: 0x0303 },
                4 => Act::RecLen { ct: 23, n: 16_390 },
                _ => Act::Bytes(Hex(vec![23, 3, 3, 0xff, 0xff])),
            };
            p.srv.script.push(Step { after_rx: tx, delay: 2, act: a });
            p.ops.push(Op::Read(5));
            for _ in 0..r.range(1, 6) {
                p.ops.push(match r.below(6) {
                    0 | 1 => Op::Close,
                    2 => Op::Read(3),
                    3 => Op::Flush,
                    _ => Op::WriteAll(r.range(1, 40) as u32),
                });
            }
        }
        4 => {
            // transport failure during write or close, then close
            p.ops.push(Op::WriteAll(r.range(1, 60) as u32));
            p.ops.push(Op::Close);
            for _ in 0..r.range(0, 3) {
                p.ops.push(match r.below(3) {
                    0 => Op::Close,
                    1 => Op::WriteAll(r.range(1, 40) as u32),
                    _ => Op::Flush,
                });
            }
            if i / 6 % 2 == 0 {
                let f = write_fault(r, &p, i / 6);
                p.net.wfault.push(f);
            } else {
                // the bytes go out, flushing them fails
                let (_, _, fl) = lengths(&p);
                let n = p.ops.iter().rev().take_while(|o| matches!(o, Op::Flush)).count() as u64;
                let off = if r.pct(60) { fl.saturating_sub(1 + r.range(0, n)) } else { r.below(fl.max(1)) };
                p.net.ffault.push(Fault { off, kind: kind(r, i / 12), n: r.pick(&[0, 1, 1, 2]) });
                for _ in 0..r.range(1, 4) {
                    p.ops.push(r.pick(&[Op::Close, Op::Close, Op::Flush, Op::WriteAll(9)]));
                }
            }
        }
        _ => {
            // plain: data then close
            let n = size(r, true);
            p.ops.push(Op::WriteAll(n));
            tx += n as u64;
            p.ops.push(Op::Close);
            p.srv.reply_close = r.one_in(2);
        }
    }
    if r.one_in(4) {
        // data the application never reads, or reads in part, around the close
        let n = r.range(2, 3000) as u32;
        rx += n as u64;
        let v = if r.one_in(2) { vec![n] } else { vec![n / 2, n - n / 2] };
        p.srv.script.insert(0, Step { after_rx: 0, delay: r.pick(&[0, 0, 40]), act: Act::Send(v) });
        let at = r.below(p.ops.len() as u64 + 1) as usize;
        p.ops.insert(at, Op::Read(r.range(1, n as u64 - 1) as u32));
    }
    if r.one_in(3) && p.net.wfault.is_empty() {
        p.net = benign(r, tx + rx);
    }
    p
}

fn c18(r: &mut Rng, i: u64) -> Plan {
    let j = r.u64() >> 20;
    if i % 50 == 0 {
        let mut p = base(r);
        p.net.tcp = true;
        p.net.dup_fail = true;
        p.ops.push(Op::WriteAll(5));
        return p;
    }
    if i % 50 == 25 {
        // a socket whose options cannot be set
        let mut p = if r.one_in(2) { base(r) } else { c01(r, j, false) };
        p.entropy.set.clear();
        p.net.tcp = true;
        p.net.hold = false;
        p.net.ffault.clear();
        p.net.fintr.clear();
        p.net.opt_fail = r.pick(&[libc::EINVAL, libc::ENOPROTOOPT, libc::EOPNOTSUPP, libc::ENOBUFS, libc::ENOTCONN, libc::EDOM, libc::EPERM]);
        p.ops.push(Op::WriteAll(5));
        return p;
    }
    let mut p = match i % 8 {
        0 => {
            let mut p = c01(r, j, false);
            p.entropy.seed %= 64;
            p.entropy.set.clear();
            p
        }
        1 => { let k = (j - j % 6 + r.pick(&[0, 1, 2, 5])) % 3000; c05(r, k, false) },
        2 => c06(r, j % 3000, false),
        3 | 4 => c16(r, i * 7 + j % 5000),
        5 => { let k = (j - j % 6 + r.pick(&[3, 4])) % 3000; c05(r, k, false) },
        6 => { let k = j - j % 8 + r.pick(&[0, 1, 2, 4]); c08(r, k) },
        _ => {
            let mut p = c17(r, j);
            if p.net.rintr.is_empty() {
                p.net.rintr = vec![0, 2]
            }
            p
        }
    };
    p.net.tcp = true;
    p.net.v6 = r.one_in(4);
    p.net.hold = false;
    p.net.ffault.clear();
    p.net.fintr.clear();
    if r.one_in(3) && p.net.rtimeout == 0 {
        // a network that stalls for seconds, minutes, an hour
        p.net.delay = pattern(r, &[0, 0, 0, 2_000_000, 20_000_000, 600_000_000, 3_600_000_000], 5);
        if r.one_in(2) {
            p.net.cdelay = pattern(r, &[0, 0, 2_000_000, 40_000_000, 3_600_000_000], 4);
        }
        if r.one_in(2) && p.net.window == 0 {
            // ... and accepts no more until the peer has read
            p.net.window = r.pick(&[1, 40, 1000, 16_384, 70_000]);
            if p.net.window < 1000 {
                p.net.cdelay.retain(|d| *d < 100_000_000)
            }
        }
    }
    p
}

fn c19(r: &mut Rng, i: u64) -> (Vec<Plan>, Rel) {
    if i % 4 == 3 {
        // replayed records
        let (v, rel) = if r.one_in(2) {
            let j = r.u64() >> 20;
            c07(r, j - j % 6 + 5)
        } else {
            let j = r.u64() >> 20;
            c02(r, j - j % 10 + 8)
        };
        return (v, rel);
    }
    if i % 128 == 6 {
        // a crowd, all of it connected at the same time
        let n = if i == 6 { 300 } else { r.pick(&[9, 17, 33, 65, 5, 12]) };
        let mut v = vec![];
        for _ in 0..n {
            let mut p = base(r);
            let (a, b) = (r.range(1, 60) as u32, r.range(1, 60) as u32);
            p.ops = vec![Op::WriteAll(a), Op::Read(b), Op::Flush, Op::WriteAll(b), Op::Read(a), Op::Close];
            p.srv.script = vec![Step { after_rx: 0, delay: 0, act: Act::Send(vec![a, b]) }];
            p.net.tcp = r.one_in(3);
            v.push(p);
        }
        let threads = n < 100 && r.one_in(2);
        return (v, Rel::Interleave { threads, migrate: !threads && r.one_in(2), sched: vec![] });
    }
    let n = r.range(2, 4);
    let mut v = vec![];
    for _ in 0..n {
        let j = r.u64() >> 20;
        let mut p = match r.below(14) {
            0 => c01(r, j, false),
            7 => c04(r, j),
            8 => { let k = j - j % 10 + r.range(1, 5); c09(r, k) },
            9 => c11(r, j),
            10 => c15(r, j),
            11 => c13(r, j),
            12 => c10(r, j % 1999),
            1 => { let k = (j - j % 6 + r.pick(&[0, 2, 3, 5])) % 3000; c05(r, k, false) },
            2 => { let k = (j - j % 6 + r.pick(&[0, 3, 4, 5])) % 3000; c06(r, k, false) },
            3 => ({ let k = j - j % 6 + r.below(4); c07(r, k) }).0.pop().unwrap_or_default(),
            4 => c08(r, j),
            5 => c16(r, j % 100_000),
            6 => c17(r, j),
            _ => c03(r, j),
        };
        p.entropy.seed %= 64;
        p.entropy.set.clear();
        v.push(p);
    }
    if r.one_in(3) {
        // twins
        v[1] = v[0].clone();
        if r.one_in(2) {
            v[1].entropy.seed ^= 1;
        }
    }
    if r.one_in(4) {
        for p in v.iter_mut() {
            if !p.net.hold {
                p.net.tcp = true;
                p.net.ffault.clear();
                p.net.fintr.clear();
            }
        }
    }
    let sched: Vec<u8> = match r.below(3) {
        0 => vec![],
        1 => (0..r.range(3, 40)).map(|_| r.below(4) as u8).collect(),
        _ => {
            // bursts
            let mut s = vec![];
            for _ in 0..r.range(2, 8) {
                let who = r.below(4) as u8;
                for _ in 0..r.range(1, 30) {
                    s.push(who)
                }
            }
            s
        }
    };
    let threads = r.pct(50);
    (v, Rel::Interleave { threads, migrate: !threads && r.pct(50), sched })
}

/// a connection used in the same way for long, or one of any other kind
fn c20(r: &mut Rng, i: u64) -> (Vec<Plan>, Rel) {
    let j = r.u64() >> 20;
    if i % 12 < 4 && i % 24 < 12 || i % 48 == 47 {
        let mut p = base(r);
        let n = r.range(9_000, 14_000) as u32;
        let small = |r: &mut Rng| r.pick(&[1, 1, 2, 5, 16, 40]);
        match i % 12 {
            0 => {
                let len = small(r);
                if r.one_in(3) {
                    p.ops.push(Op::WriteMany(400, r.range(8_000, 16_384) as u32));
                } else {
                    p.ops.push(Op::WriteMany(n, len));
                }
            }
            1 => {
                let (n, len) = if r.one_in(3) { (400, r.range(8_000, 16_384) as u32) } else { (n, small(r)) };
                p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::SendMany(n, len) });
                let buf = r.pick(&[1, len, len, (len / 2).max(1), len + 1, 3 * len]).max(len / 8);
                p.ops.push(Op::ReadN(n * len, buf));
            }
            2 => {
                let (ct, body) = r.pick(&[(23, vec![]), (22, vec![0, 0, 0, 0]), (22, vec![0]), (22, vec![0, 0]), (22, vec![0; 8])]);
                let every = r.range(20, 100) as u32 & !3;
                p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Flood { ct, body: Hex(body), n, every } });
                p.ops.push(Op::ReadN(n / every, 1));
            }
            _ if r.one_in(2) => {
                // calls that have nothing to do or cannot succeed, again and again
                match r.below(4) {
                    0 => p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Fin }),
                    1 => p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Close }),
                    2 => p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::Bytes(Hex(vec![23, 3, 3, 0, 20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20])) }),
                    _ => {}
                }
                p.ops.push(Op::Read(0));
                if r.one_in(2) {
                    p.ops.push(Op::Read(1));
                }
                if r.one_in(2) {
                    p.ops.push(Op::Close);
                }
                let k = r.range(3_000, 5_000);
                let calls = [Op::Read(r.pick(&[0, 1, 100])), Op::WriteAll(r.pick(&[0, 1, 100])), Op::Flush, Op::Close];
                let only = r.below(8) as usize;
                for x in 0..k as usize {
                    p.ops.push(calls[if only < 4 { only } else { x % 3 }].clone());
                }
            }
            _ => {
                let (a, b) = (small(r), small(r));
                let k = r.range(4_000, 6_000) as u32;
                p.srv.script.push(Step { after_rx: 0, delay: 0, act: Act::SendMany(k, b) });
                let flush = r.one_in(2);
                for _ in 0..k {
                    p.ops.push(Op::WriteAll(a));
                    p.ops.push(Op::Read(b));
                    if flush {
                        p.ops.push(Op::Flush)
                    }
                }
            }
        }
        p.net.tcp = r.one_in(4);
        return (vec![p], Rel::Release { steady: true });
    }
    let mut p = match i % 12 {
        0 | 6 => c01(r, j, false),
        1 => c03(r, j),
        2 => c16(r, j % 100_000),
        3 => c17(r, j),
        4 => c18(r, j),
        5 => c11(r, j),
        7 => c08(r, j),
        8 => { let k = (j - j % 6 + r.pick(&[0, 2, 3, 5])) % 3000; c05(r, k, false) },
        9 => { let k = (j - j % 6 + r.pick(&[0, 3, 4, 5])) % 3000; c06(r, k, false) },
        10 => c09(r, j),
        _ => ({ let k = j - j % 6 + r.below(4); c07(r, k) }).0.pop().unwrap_or_default(),
    };
    if !p.net.hold && r.one_in(2) {
        p.net.tcp = true;
        p.net.ffault.clear();
        p.net.fintr.clear();
    }
    if r.one_in(10) {
        p.entropy.fail_at = Some(r.below(70) as u32);
    }
    p.hop = 0;
    (vec![p], Rel::Release { steady: false })
}
