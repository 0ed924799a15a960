//! A small TLS 1.2 server and an in-memory wire for demonstrations. Shares no code with husk.
#![allow(dead_code)]
use crate::{aead, p256, sha};
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::rc::Rc;

pub fn rec(ct: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![ct, 3, 3, (body.len() >> 8) as u8, body.len() as u8];
    v.extend_from_slice(body);
    v
}

pub fn msg(ty: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, (body.len() >> 16) as u8, (body.len() >> 8) as u8, body.len() as u8];
    v.extend_from_slice(body);
    v
}

fn nonce(iv: &[u8], seq: u64) -> [u8; 12] {
    let mut n = [0u8; 12];
    n.copy_from_slice(iv);
    for (i, b) in seq.to_be_bytes().iter().enumerate() {
        n[4 + i] ^= b;
    }
    n
}

fn aad(seq: u64, ct: u8, len: usize) -> Vec<u8> {
    let mut a = seq.to_be_bytes().to_vec();
    a.extend_from_slice(&[ct, 3, 3, (len >> 8) as u8, len as u8]);
    a
}

#[derive(Clone)]
pub struct Keys {
    pub master: Vec<u8>,
    pub ck: [u8; 32],
    pub sk: [u8; 32],
    pub civ: Vec<u8>,
    pub siv: Vec<u8>,
}

/// What the server says; the hooks see the honest bytes and may return others.
pub struct Cfg {
    pub session_id: Vec<u8>,
    pub suite: u16,
    pub version: u16,
    pub compression: u8,
    /// contents of the hello's extension block, with its length; empty = no block
    pub ext: Vec<u8>,
    pub certs: Vec<usize>,
    pub curve_type: u8,
    pub curve: u16,
    /// replaces the public key sent
    pub point: Option<Vec<u8>>,
    pub sig: usize,
    /// the client's scalar, for key shares whose private key nobody knows
    pub client_scalar: Option<p256::U256>,
    /// the four messages of the first flight -> bytes on the wire
    pub flight1: Box<dyn FnMut(Vec<Vec<u8>>) -> Vec<u8>>,
    /// cipher change record, Finished message -> bytes on the wire, and number of protected records among them
    pub flight2: Box<dyn FnMut(&Keys, Vec<u8>, Vec<u8>) -> (Vec<u8>, u64)>,
}

pub fn seal(key: &[u8; 32], iv: &[u8], seq: u64, ct: u8, body: &[u8]) -> Vec<u8> {
    rec(ct, &aead::seal(key, &nonce(iv, seq), &aad(seq, ct, body.len()), body))
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            session_id: vec![],
            suite: 0xcca8,
            version: 0x0303,
            compression: 0,
            ext: vec![],
            certs: vec![500],
            curve_type: 3,
            curve: 23,
            point: None,
            sig: 256,
            client_scalar: None,
            flight1: Box::new(|m| m.iter().flat_map(|m| m.chunks(16384).flat_map(|c| rec(22, c)).collect::<Vec<u8>>()).collect()),
            flight2: Box::new(|k, ccs, fin| {
                let mut v = ccs;
                v.extend(seal(&k.sk, &k.siv, 0, 22, &fin));
                (v, 1)
            }),
        }
    }
}

pub struct Server {
    pub cfg: Cfg,
    inb: Vec<u8>,
    hs: Vec<u8>,
    pub transcript: Vec<u8>,
    client_random: Vec<u8>,
    pub server_random: Vec<u8>,
    d: p256::U256,
    pub keys: Option<Keys>,
    in_prot: bool,
    pub in_seq: u64,
    pub out_seq: u64,
    pub out: Vec<u8>,
    pub done: bool,
    /// records from the client as (type, content)
    pub got: Vec<(u8, Vec<u8>)>,
    pub app: Vec<u8>,
    pub client_point: Vec<u8>,
    pub client_hello: Vec<u8>,
    pub err: Option<String>,
}

impl Server {
    pub fn new(cfg: Cfg) -> Server {
        Server {
            cfg,
            inb: vec![],
            hs: vec![],
            transcript: vec![],
            client_random: vec![],
            server_random: (0..32).map(|i| i * 7 + 1).collect(),
            d: p256::U256::from_be(&[0x37; 32]),
            keys: None,
            in_prot: false,
            in_seq: 0,
            out_seq: 0,
            out: vec![],
            done: false,
            got: vec![],
            app: vec![],
            client_point: vec![],
            client_hello: vec![],
            err: None,
        }
    }

    /// one protected record
    pub fn seal(&mut self, ct: u8, body: &[u8]) -> Vec<u8> {
        let k = self.keys.clone().expect("keys");
        self.out_seq += 1;
        seal(&k.sk, &k.siv, self.out_seq - 1, ct, body)
    }

    pub fn send(&mut self, ct: u8, body: &[u8]) {
        let r = self.seal(ct, body);
        self.out.extend(r);
    }

    pub fn alerts(&self) -> Vec<(u8, u8)> {
        self.got.iter().filter(|r| r.0 == 21 && r.1.len() == 2).map(|r| (r.1[0], r.1[1])).collect()
    }

    pub fn input(&mut self, b: &[u8]) {
        self.inb.extend_from_slice(b);
        while self.err.is_none() && self.inb.len() >= 5 {
            let n = (self.inb[3] as usize) << 8 | self.inb[4] as usize;
            if self.inb.len() < 5 + n {
                return;
            }
            let r: Vec<u8> = self.inb.drain(..5 + n).collect();
            let ct = r[0];
            let body = if self.in_prot {
                let k = self.keys.clone().unwrap();
                if n < 16 {
                    self.err = Some("short record".into());
                    return;
                }
                match aead::open(&k.ck, &nonce(&k.civ, self.in_seq), &aad(self.in_seq, ct, n - 16), &r[5..]) {
                    Some(p) => p,
                    None => {
                        self.err = Some(format!("record {} does not authenticate", self.in_seq));
                        return;
                    }
                }
            } else {
                r[5..].to_vec()
            };
            self.in_seq += 1;
            self.got.push((ct, body.clone()));
            match ct {
                20 => {
                    self.in_prot = true;
                    self.in_seq = 0;
                }
                22 => {
                    self.hs.extend(body);
                    while self.hs.len() >= 4 {
                        let n = 4 + ((self.hs[1] as usize) << 16 | (self.hs[2] as usize) << 8 | self.hs[3] as usize);
                        if self.hs.len() < n {
                            break;
                        }
                        let m: Vec<u8> = self.hs.drain(..n).collect();
                        self.handshake(m);
                    }
                }
                23 => self.app.extend(body),
                _ => {}
            }
        }
    }

    fn handshake(&mut self, m: Vec<u8>) {
        match m[0] {
            1 => {
                self.client_hello = m.clone();
                self.client_random = m[6..38].to_vec();
                self.transcript = m;
                let c = &mut self.cfg;
                let mut sh = vec![(c.version >> 8) as u8, c.version as u8];
                sh.extend_from_slice(&self.server_random);
                sh.push(c.session_id.len() as u8);
                sh.extend_from_slice(&c.session_id);
                sh.extend_from_slice(&[(c.suite >> 8) as u8, c.suite as u8, c.compression]);
                sh.extend_from_slice(&c.ext);
                let mut list = vec![];
                for (i, n) in c.certs.iter().enumerate() {
                    list.extend_from_slice(&[(n >> 16) as u8, (n >> 8) as u8, *n as u8]);
                    list.extend(vec![i as u8; *n]);
                }
                let mut cert = vec![(list.len() >> 16) as u8, (list.len() >> 8) as u8, list.len() as u8];
                cert.extend(list);
                let p = c.point.clone().unwrap_or_else(|| p256::Affine::g().mul(self.d).unwrap().to_bytes());
                let mut ske = vec![c.curve_type, (c.curve >> 8) as u8, c.curve as u8, p.len() as u8];
                ske.extend(p);
                ske.extend_from_slice(&[4, 1, (c.sig >> 8) as u8, c.sig as u8]);
                ske.extend(vec![0x5a; c.sig]);
                let msgs = vec![msg(2, &sh), msg(11, &cert), msg(12, &ske), msg(14, &[])];
                self.transcript.extend(msgs.concat());
                let b = (c.flight1)(msgs);
                self.out.extend(b);
            }
            16 => {
                self.client_point = m[5..].to_vec();
                let p = match (&self.cfg.point, self.cfg.client_scalar) {
                    (Some(s), Some(k)) => p256::Affine::from_bytes(s).and_then(|p| p.mul(k)),
                    _ => p256::Affine::from_bytes(&m[5..]).and_then(|p| p.mul(self.d)),
                };
                let p = match p {
                    Some(p) => p,
                    None => {
                        self.err = Some("the client's key share is not a point of the curve".into());
                        return;
                    }
                };
                self.transcript.extend(m);
                let (cr, sr) = (&self.client_random, &self.server_random);
                let master = sha::prf(&p.x.to_be(), b"master secret", &[&cr[..], &sr[..]].concat(), 48);
                let kb = sha::prf(&master, b"key expansion", &[&sr[..], &cr[..]].concat(), 88);
                let mut k = Keys { master, ck: [0; 32], sk: [0; 32], civ: kb[64..76].to_vec(), siv: kb[76..88].to_vec() };
                k.ck.copy_from_slice(&kb[..32]);
                k.sk.copy_from_slice(&kb[32..64]);
                self.keys = Some(k);
            }
            20 => {
                let k = self.keys.clone().unwrap();
                let want = sha::prf(&k.master, b"client finished", &sha::sha256(&self.transcript), 12);
                if m[4..] != want[..] {
                    self.err = Some("the client's Finished is wrong".into());
                    return;
                }
                self.transcript.extend(m);
                let fin = msg(20, &sha::prf(&k.master, b"server finished", &sha::sha256(&self.transcript), 12));
                let (b, n) = (self.cfg.flight2)(&k, rec(20, &[1]), fin);
                self.out.extend(b);
                self.out_seq = n;
                self.done = true;
            }
            t => self.err = Some(format!("handshake message {}", t)),
        }
    }
}

/// The network between the two; every knob is a way a transport may legally behave or fail.
pub struct Net {
    pub srv: Server,
    /// at most this many bytes per read / write
    pub rchunk: usize,
    pub wchunk: usize,
    /// every other read / write is interrupted
    pub intr: bool,
    flip: bool,
    /// end of stream once the server's bytes are used up (otherwise a stall is recorded)
    pub eof: bool,
    pub stalled: bool,
    /// writing fails from this offset on
    pub wfail: Option<(usize, io::ErrorKind)>,
    /// writes accept nothing (Ok(0)) from this offset on
    pub wzero: Option<usize>,
    /// failing ends after that many failures
    pub wfails_left: usize,
    /// reading fails from this offset on
    pub rfail: Option<(usize, io::ErrorKind)>,
    /// flushes fail: how many are let through first, how many fail then
    pub ffail: Option<(u64, u64, io::ErrorKind)>,
    pub flushes: u64,
    /// written bytes wait for a flush
    pub hold: bool,
    held: Vec<u8>,
    pub c2s: Vec<u8>,
    pub consumed: usize,
    pub reads: u64,
    pub writes: u64,
}

#[derive(Clone)]
pub struct Wire(pub Rc<RefCell<Net>>);

pub fn wire(cfg: Cfg) -> Wire {
    Wire(Rc::new(RefCell::new(Net {
        srv: Server::new(cfg),
        rchunk: usize::MAX,
        wchunk: usize::MAX,
        intr: false,
        flip: false,
        eof: false,
        stalled: false,
        wfail: None,
        wzero: None,
        wfails_left: usize::MAX,
        rfail: None,
        ffail: None,
        flushes: 0,
        hold: false,
        held: vec![],
        c2s: vec![],
        consumed: 0,
        reads: 0,
        writes: 0,
    })))
}

impl Read for Wire {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut n = self.0.borrow_mut();
        n.reads += 1;
        if n.reads > 3_000_000 {
            println!("FAIL: the client spins");
            std::process::exit(1);
        }
        if n.intr {
            n.flip = !n.flip;
            if n.flip {
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        let mut k = b.len().min(n.srv.out.len()).min(n.rchunk);
        if let Some((at, kind)) = n.rfail {
            if n.consumed >= at {
                return Err(kind.into());
            }
            k = k.min(at - n.consumed);
        }
        if k == 0 && !b.is_empty() {
            if n.eof {
                return Ok(0);
            }
            n.stalled = true;
            return Err(io::Error::new(io::ErrorKind::TimedOut, "nothing left to read"));
        }
        let d: Vec<u8> = n.srv.out.drain(..k).collect();
        b[..k].copy_from_slice(&d);
        n.consumed += k;
        Ok(k)
    }
}

impl Write for Wire {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = self.0.borrow_mut();
        n.writes += 1;
        if n.writes > 3_000_000 {
            println!("FAIL: the client spins");
            std::process::exit(1);
        }
        if n.intr {
            n.flip = !n.flip;
            if n.flip {
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        let mut k = b.len().min(n.wchunk);
        if let Some(at) = n.wzero {
            if n.c2s.len() >= at {
                return Ok(0);
            }
            k = k.min(at - n.c2s.len());
        }
        if let Some((at, kind)) = n.wfail {
            if n.wfails_left > 0 {
                if n.c2s.len() >= at {
                    n.wfails_left -= 1;
                    return Err(kind.into());
                }
                k = k.min(at - n.c2s.len());
            }
        }
        n.c2s.extend_from_slice(&b[..k]);
        if n.hold {
            n.held.extend_from_slice(&b[..k]);
        } else {
            n.srv.input(&b[..k]);
        }
        Ok(k)
    }

    fn flush(&mut self) -> io::Result<()> {
        let mut n = self.0.borrow_mut();
        n.flushes += 1;
        if let Some((from, count, kind)) = n.ffail {
            if n.flushes > from && n.flushes <= from + count {
                return Err(kind.into());
            }
        }
        let h = std::mem::take(&mut n.held);
        n.srv.input(&h);
        Ok(())
    }
}

pub type Client = husk::TlsClient<Wire, Wire>;

pub fn connect(w: &Wire) -> Result<Client, husk::tls_result::TlsError> {
    husk::TlsClient::new(w.clone(), w.clone(), rand::rngs::OsRng)
}

/// Ends the demonstration: the property is broken.
pub fn fail(what: &str) -> ! {
    println!("FAIL: {}", what);
    std::process::exit(1)
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        fail(what)
    }
}
