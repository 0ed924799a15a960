//! Reference TLS 1.2 server (ECDHE-RSA-ChaCha20-Poly1305-SHA256 on P-256) with scripted deviations.
//! Strict about everything the client sends; every observation is logged.
use crate::plan::*;
use crate::prng::{content, stream, Rng};
use refc::{prf, sha256, Affine, U256};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Keys {
    pub master: Vec<u8>,
    pub ck: [u8; 32],
    pub sk: [u8; 32],
    pub civ: [u8; 12],
    pub siv: [u8; 12],
}

pub fn derive(pms: &[u8], cr: &[u8], sr: &[u8]) -> Keys {
    let mut seed = cr.to_vec();
    seed.extend_from_slice(sr);
    let master = prf(pms, b"master secret", &seed, 48);
    let mut seed = sr.to_vec();
    seed.extend_from_slice(cr);
    let kb = prf(&master, b"key expansion", &seed, 88);
    Keys {
        master,
        ck: kb[0..32].try_into().unwrap(),
        sk: kb[32..64].try_into().unwrap(),
        civ: kb[64..76].try_into().unwrap(),
        siv: kb[76..88].try_into().unwrap(),
    }
}

pub fn finished(master: &[u8], label: &[u8], transcript: &[u8]) -> Vec<u8> {
    prf(master, label, &sha256(transcript), 12)
}

pub fn nonce(iv: &[u8; 12], seq: u64) -> [u8; 12] {
    let mut n = *iv;
    for (i, b) in seq.to_be_bytes().iter().enumerate() {
        n[4 + i] ^= b;
    }
    n
}

pub fn aad(seq: u64, ct: u8, ver: u16, len: usize) -> Vec<u8> {
    let mut a = seq.to_be_bytes().to_vec();
    a.push(ct);
    a.extend_from_slice(&ver.to_be_bytes());
    a.extend_from_slice(&(len as u16).to_be_bytes());
    a
}

/// The sequence number of the client's k-th protected record, where it skips numbers once connected.
pub fn wire_seq(skip: u64, k: u64) -> u64 {
    if k == 0 || cfg!(not(husk_sim)) { k } else { k.wrapping_add(skip) }
}

pub fn seal_rec(key: &[u8; 32], iv: &[u8; 12], seq: u64, ct: u8, ver: u16, body: &[u8]) -> Vec<u8> {
    let sealed = refc::seal(key, &nonce(iv, seq), &aad(seq, ct, ver, body.len()), body);
    raw_rec(ct, ver, &sealed)
}

pub fn open_rec(key: &[u8; 32], iv: &[u8; 12], seq: u64, ct: u8, ver: u16, body: &[u8]) -> Option<Vec<u8>> {
    if body.len() < 16 {
        return None;
    }
    refc::open(key, &nonce(iv, seq), &aad(seq, ct, ver, body.len() - 16), body)
}

pub fn raw_rec(ct: u8, ver: u16, body: &[u8]) -> Vec<u8> {
    let mut v = vec![ct];
    v.extend_from_slice(&ver.to_be_bytes());
    v.extend_from_slice(&(body.len() as u16).to_be_bytes());
    v.extend_from_slice(body);
    v
}

pub fn hs_msg(ty: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, (body.len() >> 16) as u8, (body.len() >> 8) as u8, body.len() as u8];
    v.extend_from_slice(body);
    v
}

type KeyPair = (U256, Vec<u8>);
thread_local! {
    static PUBS: RefCell<HashMap<[u8; 32], Vec<u8>>> = RefCell::new(HashMap::new());
    static ECDH: RefCell<HashMap<(Vec<u8>, Vec<u8>), Option<Vec<u8>>>> = RefCell::new(HashMap::new());
}

pub fn public_of(d: U256) -> Vec<u8> {
    PUBS.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 4096 {
            c.clear();
        }
        c.entry(d.to_be()).or_insert_with(|| Affine::g().mul(d).expect("0 < d < N").to_bytes()).clone()
    })
}

/// x coordinate of d*point, None if the point is invalid
pub fn ecdh(d: U256, point: &[u8]) -> Option<Vec<u8>> {
    ECDH.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 256 {
            c.clear();
        }
        c.entry((d.to_be().to_vec(), point.to_vec()))
            .or_insert_with(|| {
                let p = Affine::from_bytes(point)?;
                Some(p.mul(d)?.x.to_be().to_vec())
            })
            .clone()
    })
}

/// The client's private key, looked for among the entropy it drew: any 32 bytes of it, in any of the usual orders,
/// that give the public key it sent. A server with a key whose private half nobody knows takes part that way.
pub fn client_scalar(drawn: &[u8], public: &[u8]) -> Option<U256> {
    let mut at: Vec<usize> = (0..drawn.len().saturating_sub(31)).collect();
    at.sort_by_key(|o| (o % 32, o % 4, *o));
    let mut tried = 0;
    for mode in 0..3 {
        for o in &at {
            if o % 4 != 0 || tried > 60 {
                continue;
            }
            let w = &drawn[*o..*o + 32];
            let b: Vec<u8> = match mode {
                0 => w.iter().rev().copied().collect(),
                1 => w.to_vec(),
                _ => w.chunks(4).rev().flatten().copied().collect(),
            };
            let d = U256::from_be(&b);
            if d == U256::ZERO || d >= refc::p256::N {
                continue;
            }
            tried += 1;
            if Affine::g().mul(d).map_or(false, |p| p.to_bytes() == public) {
                return Some(d);
            }
        }
    }
    None
}

/// premaster secret of a server whose public key has no known private half
pub fn pms_unknown(drawn: &[u8], public: &[u8], cke: &[u8]) -> Option<Vec<u8>> {
    Affine::from_bytes(public)?;
    let d = client_scalar(drawn, cke)?;
    ecdh(d, public)
}

impl KeySpec {
    /// private key (if known) and public bytes
    pub fn pair(&self, seed: u64) -> (Option<U256>, Vec<u8>) {
        let d = match self {
            // a pool of 256 keys, so that reference multiplications can be cached
            KeySpec::Seeded => {
                let b = Rng::new(&[0x5eed, seed % 256]).bytes(32);
                let mut d = U256::from_be(&b);
                while d >= refc::p256::N || d == U256::ZERO {
                    d = d.sub(refc::p256::N).0;
                    if d == U256::ZERO {
                        d = U256::from_u64(7);
                    }
                }
                d
            }
            KeySpec::Scalar(b) => {
                let mut v = vec![0u8; 32];
                for (i, x) in b.0.iter().take(32).enumerate() {
                    v[i] = *x
                }
                let mut d = U256::from_be(&v);
                while d >= refc::p256::N {
                    d = d.sub(refc::p256::N).0;
                }
                if d == U256::ZERO {
                    d = U256::from_u64(1);
                }
                d
            }
            KeySpec::Small(k) => U256::from_u64((*k).max(1)),
            KeySpec::NMinus(k) => refc::p256::N.sub(U256::from_u64((*k).max(1))).0,
            KeySpec::Raw(b) => return (None, b.0.clone()),
        };
        let p: KeyPair = (d, public_of(d));
        (Some(p.0), p.1)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum SrvEv {
    App(u64, u32),
    Alert(u8, u8),
    Other(u8, u32),
}

#[derive(Clone, Debug, Default)]
pub struct ServerLog {
    pub rx: Vec<u8>,
    pub ev: Vec<SrvEv>,
    /// what the strict server objected to
    pub bad: Option<String>,
    /// plaintext alerts seen before the client's cipher change
    pub plain_alerts: Vec<(u8, u8)>,
    pub hello_ok: bool,
    pub cli_fin_ok: Option<bool>,
    pub keys: Option<Keys>,
    pub hs_sent: Vec<u8>,
    pub hs_rcvd: Vec<u8>,
    /// (start, end) of every record in the original S2C stream
    pub recs: Vec<(usize, usize)>,
    pub client_random: Vec<u8>,
    pub cke_point: Vec<u8>,
    pub bytes_after_close: u64,
    pub done: bool,
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum St {
    Hello,
    Cke,
    Ccs,
    Fin,
    App,
    Dead,
}

pub struct Server {
    pub p: Srv,
    st: St,
    inbuf: Vec<u8>,
    hsbuf: Vec<u8>,
    pub log: ServerLog,
    /// records to send, in order
    pub out: Vec<Vec<u8>>,
    pub ended: bool,
    transcript: Vec<u8>,
    server_random: Vec<u8>,
    priv_key: Option<U256>,
    pub_key: Vec<u8>,
    /// the entropy the client drew so far
    pub drawn: Rc<RefCell<Vec<u8>>>,
    flight1: Vec<Vec<u8>>,
    keys: Option<Keys>,
    protect: bool,
    wseq: u64,
    /// the handshake is sent
    far: bool,
    rseq: u64,
    pack_i: usize,
    pack2_i: usize,
    flight2_sent: bool,
    pub step: usize,
    tx_off: u64,
    closed_rx: bool,
    orig_len: usize,
}

const CAP: usize = 1 << 14;

impl Server {
    pub fn new(p: Srv) -> Server {
        let mut s = Server {
            p,
            st: St::Hello,
            inbuf: vec![],
            hsbuf: vec![],
            log: ServerLog::default(),
            out: vec![],
            ended: false,
            transcript: vec![],
            server_random: vec![],
            priv_key: None,
            pub_key: vec![],
            drawn: Rc::new(RefCell::new(vec![])),
            flight1: vec![],
            keys: None,
            protect: false,
            wseq: 0,
            far: false,
            rseq: 0,
            pack_i: 0,
            pack2_i: 0,
            flight2_sent: false,
            step: 0,
            tx_off: 0,
            closed_rx: false,
            orig_len: 0,
        };
        if let Some(raw) = s.p.raw.clone() {
            s.st = St::Dead;
            s.push(raw.0);
        }
        s
    }

    /// number of the next record sent
    fn wire(&self) -> u64 {
        if self.far && cfg!(husk_sim) { self.wseq.wrapping_add(self.p.skip_s) } else { self.wseq }
    }

    fn push(&mut self, rec: Vec<u8>) {
        if rec.is_empty() {
            return;
        }
        self.log.recs.push((self.orig_len, self.orig_len + rec.len()));
        self.orig_len += rec.len();
        self.out.push(rec);
    }

    fn send_rec(&mut self, ct: u8, ver: u16, body: &[u8]) {
        if self.protect {
            let k = self.keys.clone().unwrap_or(Keys { master: vec![0; 48], ck: [0; 32], sk: [0; 32], civ: [0; 12], siv: [0; 12] });
            let r = seal_rec(&k.sk, &k.siv, self.wire(), ct, ver, body);
            self.wseq += 1;
            self.push(r);
        } else {
            let r = raw_rec(ct, ver, body);
            self.push(r);
        }
    }

    fn send_hs_bytes(&mut self, data: &[u8], ends: &[usize]) {
        let mut o = 0;
        while o < data.len() {
            let left = data.len() - o;
            let (pat, i) = if self.protect { (&self.p.pack2, &mut self.pack2_i) } else { (&self.p.pack, &mut self.pack_i) };
            let want = if pat.is_empty() { 0 } else { pat[*i % pat.len()] as usize };
            *i += 1;
            // u32::MAX: up to the end of the message this byte belongs to
            let want = if want == u32::MAX as usize {
                ends.iter().find(|e| **e > o).map_or(0, |e| e - o)
            } else {
                want
            };
            let n = if want == 0 { left } else { want.min(left) }.min(CAP);
            let part = data[o..o + n].to_vec();
            self.send_rec(22, 0x0303, &part);
            o += n;
        }
    }

    fn fail(&mut self, why: String, desc: u8) {
        if self.log.bad.is_none() {
            self.log.bad = Some(why);
        }
        if !self.p.lenient {
            if self.p.raw.is_none() {
                self.send_rec(21, 0x0303, &[2, desc]);
            }
            self.ended = true;
            self.st = St::Dead;
        }
    }

    pub fn on_bytes(&mut self, data: &[u8]) {
        if self.st == St::Dead {
            if self.closed_rx {
                self.log.bytes_after_close += data.len() as u64;
            }
            return;
        }
        self.inbuf.extend_from_slice(data);
        let mut o = 0;
        while self.inbuf.len() - o >= 5 && self.st != St::Dead {
            let ct = self.inbuf[o];
            let ver = u16::from_be_bytes([self.inbuf[o + 1], self.inbuf[o + 2]]);
            let len = u16::from_be_bytes([self.inbuf[o + 3], self.inbuf[o + 4]]) as usize;
            let max = if self.rx_protected() { CAP + 16 } else { CAP };
            if !(20..=23).contains(&ct) || len > max || (ver != 0x0303 && !(self.st == St::Hello && ver >> 8 == 3)) {
                self.fail(format!("bad record header type {} version {:04x} length {}", ct, ver, len), 10);
                self.st = St::Dead;
                break;
            }
            if self.inbuf.len() - o - 5 < len {
                break;
            }
            let body = self.inbuf[o + 5..o + 5 + len].to_vec();
            o += 5 + len;
            self.on_record(ct, ver, &body);
        }
        self.inbuf.drain(..o);
    }

    fn rx_protected(&self) -> bool {
        matches!(self.st, St::Fin | St::App)
    }

    fn on_record(&mut self, ct: u8, ver: u16, body: &[u8]) {
        let plain;
        let body = if self.rx_protected() {
            let k = self.keys.clone().unwrap();
            let p = open_rec(&k.ck, &k.civ, wire_seq(self.p.skip_c, self.rseq), ct, ver, body);
            // a client that never got connected does not skip numbers
            match p.or_else(|| if self.p.skip_c > 0 { open_rec(&k.ck, &k.civ, self.rseq, ct, ver, body) } else { None }) {
                Some(p) => {
                    self.rseq += 1;
                    plain = p;
                    &plain[..]
                }
                None => {
                    self.fail(format!("record {} from client does not authenticate", self.rseq), 20);
                    self.st = St::Dead;
                    return;
                }
            }
        } else {
            body
        };
        if self.closed_rx {
            self.log.bytes_after_close += 5 + body.len() as u64;
        }
        match ct {
            21 => {
                if body.len() != 2 {
                    return self.fail("malformed alert".into(), 50);
                }
                if self.rx_protected() {
                    self.log.ev.push(SrvEv::Alert(body[0], body[1]));
                } else {
                    self.log.plain_alerts.push((body[0], body[1]));
                }
                if body[1] == 0 {
                    if !self.closed_rx && self.st == St::App && self.p.reply_close {
                        self.send_rec(21, 0x0303, &[1, 0]);
                        self.ended = true;
                    }
                    self.closed_rx = true;
                } else if body[0] == 2 && !self.p.lenient {
                    self.ended = true;
                }
            }
            20 => {
                if self.st != St::Ccs || body != [1] || !self.hsbuf.is_empty() {
                    return self.fail(format!("unexpected cipher change in {:?}", self.st), 10);
                }
                self.st = St::Fin;
                self.rseq = 0;
                if self.p.eager == 3 {
                    self.flight2();
                }
            }
            22 => {
                if body.is_empty() {
                    return self.fail("empty handshake record".into(), 10);
                }
                self.hsbuf.extend_from_slice(body);
                while self.hsbuf.len() >= 4 && self.st != St::Dead {
                    let n = ((self.hsbuf[1] as usize) << 16 | (self.hsbuf[2] as usize) << 8 | self.hsbuf[3] as usize) + 4;
                    if n > 1 << 17 {
                        return self.fail("client handshake message too long".into(), 50);
                    }
                    if self.hsbuf.len() < n {
                        break;
                    }
                    let m: Vec<u8> = self.hsbuf.drain(..n).collect();
                    self.on_hs(&m);
                }
            }
            _ => {
                if self.st != St::App {
                    return self.fail("early application data".into(), 10);
                }
                self.log.ev.push(SrvEv::App(self.log.rx.len() as u64, body.len() as u32));
                self.log.rx.extend_from_slice(body);
                if self.p.echo && !body.is_empty() {
                    let b = body.to_vec();
                    self.send_rec(23, 0x0303, &b);
                }
            }
        }
    }

    fn on_hs(&mut self, m: &[u8]) {
        // messages a lenient server passes over do not join the conversation
        if matches!((self.st, m[0]), (St::Hello, 1) | (St::Cke, 16) | (St::Fin, 20)) {
            self.log.hs_rcvd.extend_from_slice(m);
        }
        match (self.st, m[0]) {
            (St::Hello, 1) => match self.check_hello(&m[4..]) {
                Ok(random) => {
                    self.log.hello_ok = true;
                    self.log.client_random = random;
                    self.transcript = m.to_vec();
                    self.flight_1();
                    self.st = St::Cke;
                }
                Err(e) => self.fail(format!("client hello: {}", e), 50),
            },
            (St::Cke, 16) => {
                let b = &m[4..];
                if b.is_empty() || b.len() != b[0] as usize + 1 {
                    return self.fail("malformed client key exchange".into(), 50);
                }
                self.log.cke_point = b[1..].to_vec();
                let pms = match self.priv_key {
                    Some(d) => ecdh(d, &b[1..]),
                    None => pms_unknown(&self.drawn.borrow(), &self.pub_key, &b[1..]),
                };
                let pms = match pms {
                    Some(p) => p,
                    None if self.priv_key.is_none() => {
                        // nothing sensible can follow
                        self.st = St::Dead;
                        return;
                    }
                    None => return self.fail("client key share is not a point of the curve".into(), 47),
                };
                self.keys = Some(derive(&pms, &self.log.client_random, &self.server_random));
                self.log.keys = self.keys.clone();
                self.transcript.extend_from_slice(m);
                self.st = St::Ccs;
                if self.p.eager == 2 {
                    self.flight2();
                }
            }
            (St::Fin, 20) => {
                let master = self.keys.as_ref().unwrap().master.clone();
                let want = finished(&master, b"client finished", &self.transcript);
                let ok = m.len() == 16 && m[4..] == want[..] && self.hsbuf.is_empty();
                self.log.cli_fin_ok = Some(ok);
                if !ok {
                    self.fail("client Finished is wrong".into(), 51);
                }
                if self.st == St::Dead {
                    return;
                }
                self.st = St::App;
                self.flight2();
                self.log.done = true;
            }
            (st, t) => self.fail(format!("handshake message {} in {:?}", t, st), 10),
        }
    }

    fn check_hello(&self, b: &[u8]) -> Result<Vec<u8>, String> {
        let mut o = 0;
        let mut take = |n: usize| -> Result<&[u8], String> {
            let r = b.get(o..o + n).ok_or("truncated")?;
            o += n;
            Ok(r)
        };
        let ver = take(2)?;
        if ver != [3, 3] {
            return Err(format!("version {:?}", ver));
        }
        let random = take(32)?.to_vec();
        let n = take(1)?[0] as usize;
        if n > 32 {
            return Err("session id".into());
        }
        take(n)?;
        let n = u16::from_be_bytes(take(2)?.try_into().unwrap()) as usize;
        let suites = take(n)?;
        if n % 2 != 0 || !suites.chunks(2).any(|c| c == [0xcc, 0xa8]) {
            return Err("cipher suite not offered".into());
        }
        let n = take(1)?[0] as usize;
        if !take(n)?.contains(&0) {
            return Err("null compression not offered".into());
        }
        let mut curve = None;
        let mut fmt = None;
        let mut sig = None;
        if let Ok(n) = take(2) {
            let n = u16::from_be_bytes(n.try_into().unwrap()) as usize;
            let e = take(n)?;
            let mut i = 0;
            let mut seen = vec![];
            while i < e.len() {
                if e.len() - i < 4 {
                    return Err("extension header".into());
                }
                let t = u16::from_be_bytes([e[i], e[i + 1]]);
                let l = u16::from_be_bytes([e[i + 2], e[i + 3]]) as usize;
                let d = e.get(i + 4..i + 4 + l).ok_or("extension body")?;
                i += 4 + l;
                if seen.contains(&t) {
                    return Err(format!("extension {} twice", t));
                }
                seen.push(t);
                match t {
                    10 => curve = Some(l >= 2 && l == 2 + u16::from_be_bytes([d[0], d[1]]) as usize && d[2..].chunks(2).any(|c| c == [0, 23])),
                    11 => fmt = Some(l >= 1 && l == 1 + d[0] as usize && d[1..].contains(&0)),
                    13 => sig = Some(l >= 2 && l == 2 + u16::from_be_bytes([d[0], d[1]]) as usize && d[2..].chunks(2).any(|c| c == [4, 1])),
                    _ => {}
                }
            }
        }
        if take(1).is_ok() {
            return Err("trailing bytes".into());
        }
        // a server may use any curve if none is named, and must not use SHA-256 signatures if none are offered
        if curve != Some(true) || fmt == Some(false) || sig != Some(true) {
            return Err("extensions do not allow P-256 / uncompressed / RSA-SHA256".into());
        }
        Ok(random)
    }

    fn build_flight(&mut self) {
        let p = self.p.clone();
        let mut r = Rng::new(&[0x5e7, p.seed]);
        self.server_random = r.bytes(32);
        for (i, b) in p.random.0.iter().take(32).enumerate() {
            self.server_random[i] = *b
        }
        let mut sh = p.ver.to_be_bytes().to_vec();
        sh.extend_from_slice(&self.server_random);
        sh.push(p.sid_len);
        let sid = r.bytes(p.sid_len as usize);
        sh.extend(sid.into_iter().map(|b| p.sid_fill.unwrap_or(b)));
        sh.extend_from_slice(&p.suite.to_be_bytes());
        sh.push(p.comp);
        match &p.ext {
            Ext::None => {}
            Ext::Empty => sh.extend_from_slice(&[0, 0]),
            Ext::PointFormats(l) => {
                let n = l.0.len();
                sh.extend_from_slice(&((n + 5) as u16).to_be_bytes());
                sh.extend_from_slice(&[0, 11]);
                sh.extend_from_slice(&((n + 1) as u16).to_be_bytes());
                sh.push(n as u8);
                sh.extend_from_slice(&l.0);
            }
            Ext::Unknown(t, l) => {
                let l = (*l).min(16000);
                sh.extend_from_slice(&(l + 4).to_be_bytes());
                sh.extend_from_slice(&t.to_be_bytes());
                sh.extend_from_slice(&l.to_be_bytes());
                sh.extend(r.bytes(l as usize));
            }
            Ext::List(v) => {
                let mut b = vec![];
                for (t, d) in v {
                    let d = &d.0[..d.0.len().min(3000)];
                    b.extend_from_slice(&t.to_be_bytes());
                    b.extend_from_slice(&(d.len() as u16).to_be_bytes());
                    b.extend_from_slice(d);
                }
                sh.extend_from_slice(&(b.len() as u16).to_be_bytes());
                sh.extend(b);
            }
            Ext::Raw(b) => sh.extend_from_slice(&b.0),
        }
        let mut list = vec![];
        for c in &p.certs {
            let c = *c as usize;
            list.extend_from_slice(&[(c >> 16) as u8, (c >> 8) as u8, c as u8]);
            list.extend(r.bytes(c));
        }
        let n = list.len();
        let mut cert = vec![(n >> 16) as u8, (n >> 8) as u8, n as u8];
        cert.extend(list);
        let (d, pubkey) = p.key.pair(p.seed);
        self.priv_key = d;
        self.pub_key = pubkey.clone();
        let mut ske = vec![p.curve_type];
        ske.extend_from_slice(&p.curve.to_be_bytes());
        ske.push(pubkey.len() as u8);
        ske.extend_from_slice(&pubkey);
        ske.extend_from_slice(&p.sig_alg.to_be_bytes());
        ske.extend_from_slice(&p.sig_len.to_be_bytes());
        ske.extend(r.bytes(p.sig_len as usize));
        self.flight1 = vec![hs_msg(2, &sh), hs_msg(11, &cert), hs_msg(12, &ske), hs_msg(14, &[])];
    }

    fn flight_1(&mut self) {
        let p = self.p.clone();
        self.build_flight();
        let items: Vec<Item> = self.flight1.iter().map(|m| Item::Hs(Hex(m.clone()))).collect();
        let items = self.edit(items, &p.edits1);
        let sent = self.emit(items);
        if p.edits_in_transit {
            let orig: Vec<u8> = self.flight1.concat();
            self.transcript.extend_from_slice(&orig);
            self.log.hs_sent.extend_from_slice(&orig);
        } else if p.canon_transcript {
            for t in [2u8, 11, 12, 14] {
                let mut all = sent.iter().filter(|m| m[0] == t);
                if let Some(m) = if p.canon_last { all.last() } else { all.next() } {
                    self.transcript.extend_from_slice(m);
                }
            }
            self.log.hs_sent.extend(sent.concat());
        } else {
            self.transcript.extend(sent.concat());
            self.log.hs_sent.extend(sent.concat());
        }
        if self.p.eager == 1 {
            self.send_rec(20, 0x0303, &[1]);
        }
    }

    fn flight2(&mut self) {
        if self.flight2_sent {
            return;
        }
        self.flight2_sent = true;
        let p = self.p.clone();
        let mut items = vec![];
        if p.eager != 1 {
            items.push(Item::Ccs(Hex(vec![1])));
        }
        items.push(Item::Protect(true));
        items.push(Item::Fin(0, 0));
        let items = self.edit(items, &p.edits2);
        let sent = self.emit(items);
        self.log.hs_sent.extend(sent.concat());
        // whatever the edits did, application data is protected
        if !self.protect {
            self.protect = true;
            self.wseq = 0;
        }
        self.far = true;
    }

    fn server_finished(&self) -> Vec<u8> {
        let k = match &self.keys {
            Some(k) => k,
            None => return vec![0; 12],
        };
        let cf = finished(&k.master, b"client finished", &self.transcript);
        let mut t = self.transcript.clone();
        t.extend(hs_msg(20, &cf));
        finished(&k.master, b"server finished", &t)
    }

    fn resolve(&self, it: Item) -> Item {
        match it {
            Item::Copy(i) => match i as usize {
                i if i < self.flight1.len() => Item::Hs(Hex(self.flight1[i].clone())),
                4 => Item::Ccs(Hex(vec![1])),
                _ => Item::Hs(Hex(hs_msg(20, &self.server_finished()))),
            },
            Item::FinC => {
                let k = self.keys.as_ref();
                Item::Hs(Hex(hs_msg(20, &k.map_or(vec![0; 12], |k| finished(&k.master, b"client finished", &self.transcript)))))
            }
            Item::FinAlt(kind) => {
                let right = self.server_finished();
                let mut f = right.clone();
                if let Some(k) = &self.keys {
                    let mut t = self.transcript.clone();
                    let i = kind as usize / 8;
                    match kind % 8 {
                        // without the client's own
                        0 => f = finished(&k.master, b"server finished", &t),
                        // as the client would go on
                        1 => {
                            t.extend(hs_msg(20, &finished(&k.master, b"client finished", &t)));
                            f = finished(&k.master, b"client finished", &t)
                        }
                        // of no conversation, or of part of it
                        2 => f = finished(&k.master, b"server finished", &[]),
                        3 => {
                            t.truncate(t.len() - 70.min(t.len()));
                            f = finished(&k.master, b"server finished", &t)
                        }
                        // of no secret
                        4 => {
                            t.extend(hs_msg(20, &finished(&k.master, b"client finished", &t)));
                            f = finished(&[0; 48], b"server finished", &t)
                        }
                        // the right bytes in another order
                        5 => f.reverse(),
                        6 => f.rotate_left(1 + i % 11),
                        _ => f.swap(i % 12, (i + 1 + i / 12 % 11) % 12),
                    }
                    if f == right {
                        f[0] ^= 1
                    }
                }
                Item::Hs(Hex(hs_msg(20, &f)))
            }
            Item::FinPart(a, b) => {
                let f = hs_msg(20, &self.server_finished());
                let a = (a as usize).min(f.len());
                let b = (b as usize).clamp(a, f.len());
                Item::Rec { ct: 22, ver: 0x0303, body: Hex(f[a..b].to_vec()) }
            }
            Item::Fin(i, x) => {
                let mut f = self.server_finished();
                let n = f.len();
                f[i as usize % n] ^= x;
                Item::Hs(Hex(hs_msg(20, &f)))
            }
            o => o,
        }
    }

    fn edit(&self, items: Vec<Item>, edits: &[MsgEdit]) -> Vec<Item> {
        let mut v: Vec<Item> = items.into_iter().map(|i| self.resolve(i)).collect();
        for e in edits {
            if v.is_empty() {
                if let MsgOp::InsertBefore(it) = &e.op {
                    v.push(self.resolve(it.clone()));
                }
                continue;
            }
            let n = v.len();
            let i = match &e.op {
                MsgOp::InsertBefore(_) => e.at as usize % (n + 1),
                _ => e.at as usize % n,
            };
            match &e.op {
                MsgOp::Drop => {
                    v.remove(i);
                }
                MsgOp::Dup => v.insert(i, v[i].clone()),
                MsgOp::SwapNext => {
                    if i + 1 < n {
                        v.swap(i, i + 1)
                    }
                }
                MsgOp::InsertBefore(it) => v.insert(i, self.resolve(it.clone())),
                MsgOp::Replace(it) => v[i] = self.resolve(it.clone()),
                op => {
                    if let Item::Hs(Hex(m)) = &mut v[i] {
                        edit_msg(m, op)
                    } else if let (Item::Ccs(Hex(m)), MsgOp::Xor(o, x)) = (&mut v[i], op) {
                        if !m.is_empty() {
                            let n = m.len();
                            m[*o as usize % n] ^= x
                        }
                    } else if let (Item::Ccs(Hex(m)), MsgOp::Append(b)) = (&mut v[i], op) {
                        m.extend_from_slice(&b.0)
                    } else if let (Item::Ccs(Hex(m)), MsgOp::Truncate(_)) = (&mut v[i], op) {
                        m.clear()
                    }
                }
            }
        }
        v
    }

    /// sends the items; returns the handshake messages among them
    fn emit(&mut self, items: Vec<Item>) -> Vec<Vec<u8>> {
        let mut sent = vec![];
        let mut acc: Vec<u8> = vec![];
        let mut ends: Vec<usize> = vec![];
        for it in items {
            if let Item::Hs(Hex(m)) = it {
                if !m.is_empty() {
                    acc.extend_from_slice(&m);
                    ends.push(acc.len());
                    sent.push(m);
                }
                continue;
            }
            let a = std::mem::take(&mut acc);
            let e = std::mem::take(&mut ends);
            self.send_hs_bytes(&a, &e);
            match it {
                Item::Ccs(b) => self.send_rec(20, 0x0303, &b.0),
                Item::Alert(l, d) => self.send_rec(21, 0x0303, &[l, d]),
                Item::Rec { ct, ver, body } => self.send_rec(ct, ver, &body.0),
                Item::Protect(b) => {
                    if b && !self.protect {
                        self.wseq = 0;
                    }
                    self.protect = b;
                }
                Item::Hs(_) | Item::Copy(_) | Item::Fin(..) | Item::FinC | Item::FinPart(..) | Item::FinAlt(_) => unreachable!(),
            }
        }
        self.send_hs_bytes(&acc, &ends);
        sent
    }

    /// delay until the next script step can run, if it can
    pub fn next_step(&self) -> Option<u32> {
        if self.ended || !self.app_ready() {
            return None;
        }
        let s = self.p.script.get(self.step)?;
        if self.log.rx.len() as u64 >= s.after_rx {
            Some(s.delay)
        } else {
            None
        }
    }

    fn app_ready(&self) -> bool {
        self.st == St::App && self.flight2_sent || (self.flight2_sent && self.p.eager >= 2 && self.p.lenient)
    }

    pub fn run_step(&mut self) {
        let act = match self.p.script.get(self.step) {
            Some(s) => s.act.clone(),
            None => return,
        };
        self.step += 1;
        match act {
            Act::Send(v) => {
                for n in v {
                    self.send_app(n as usize);
                }
            }
            Act::SendMany(count, n) => {
                for _ in 0..count {
                    self.send_app(n as usize);
                }
            }
            Act::Craft(n, seed) => {
                let n = (n as usize).min(CAP);
                let b = match &self.keys {
                    Some(k) => craft(&k.sk, &k.siv, self.wire(), n, seed),
                    None => vec![0; n],
                };
                self.tx_off += n as u64;
                self.send_rec(23, 0x0303, &b);
            }
            Act::Close => self.send_rec(21, 0x0303, &[1, 0]),
            Act::Alert(l, d) => self.send_rec(21, 0x0303, &[l, d]),
            Act::Rec { ct, body, prot, ver } => {
                if prot {
                    self.send_rec(ct, ver, &body.0)
                } else {
                    let r = raw_rec(ct, ver, &body.0);
                    self.push(r)
                }
            }
            Act::Flood { ct, body, n, every } => {
                for k in 1..=n {
                    self.send_rec(ct, 0x0303, &body.0);
                    if k % every.max(1) == 0 {
                        self.send_app(1)
                    }
                }
            }
            Act::RecLen { ct, n } => {
                let b = stream(self.p.seed ^ 0x71, self.tx_off, n as usize);
                self.send_rec(ct, 0x0303, &b)
            }
            Act::Bytes(b) => self.push(b.0),
            Act::Fin => self.ended = true,
        }
    }

    fn send_app(&mut self, n: usize) {
        let n = n.min(65535 - 16);
        let b = content(self.p.content, self.p.seed ^ 0x5e, self.tx_off, n);
        self.tx_off += n as u64;
        self.send_rec(23, 0x0303, &b);
    }
}

/// application data for record `seq` that drives its authenticator into rare states
pub fn craft(key: &[u8; 32], iv: &[u8; 12], seq: u64, n: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(&[0xc4af7, seed, seq]);
    refc::steer::steer(key, &nonce(iv, seq), &aad(seq, 23, 0x0303, n), n, &mut || r.u64())
}

pub fn edit_msg(m: &mut Vec<u8>, op: &MsgOp) {
    let fix = |m: &mut Vec<u8>| {
        if m.len() >= 4 {
            let n = m.len() - 4;
            m[1] = (n >> 16) as u8;
            m[2] = (n >> 8) as u8;
            m[3] = n as u8;
        }
    };
    match op {
        MsgOp::Xor(o, x) => {
            let n = m.len();
            if n > 0 {
                m[*o as usize % n] ^= x
            }
        }
        MsgOp::Truncate(n) => {
            let keep = 4 + *n as usize;
            if m.len() > keep {
                m.truncate(keep)
            } else if m.len() > 4 {
                m.truncate(m.len() - 1)
            }
            fix(m)
        }
        MsgOp::Append(b) => {
            m.extend_from_slice(&b.0);
            fix(m)
        }
        MsgOp::InsertRaw(o, b) => {
            let o = *o as usize % (m.len() + 1);
            m.splice(o..o, b.0.iter().copied());
        }
        MsgOp::Remove(o, k) => {
            let o = *o as usize % (m.len() + 1);
            let e = (o + *k as usize).min(m.len());
            m.drain(o..e);
        }
        MsgOp::SetLen(n) => {
            if m.len() >= 4 {
                m[1] = (n >> 16) as u8;
                m[2] = (n >> 8) as u8;
                m[3] = *n as u8;
            }
        }
        MsgOp::SetType(t) => {
            if !m.is_empty() {
                m[0] = *t
            }
        }
        _ => {}
    }
}

/// the first flight a server of this description would send, unedited
pub fn first_flight(p: &Srv) -> Vec<Vec<u8>> {
    let mut s = Server::new(p.clone());
    s.build_flight();
    s.flight1
}
