//! Executable reference model of what a TLS 1.2 client of this kind may do with a given server byte stream, and a
//! parser of what the client emitted. Neither looks at the client's code; both use the simulator's knowledge of keys.
use crate::plan::*;
use crate::run::*;
use crate::server::*;

pub const UM: &str = "UnexpectedMessage";
pub const BRM: &str = "BadRecordMac";
pub const RO: &str = "RecordOverflow";
pub const IP: &str = "IllegalParameter";
pub const DE: &str = "DecodeError";
pub const DY: &str = "DecryptError";
pub const IE: &str = "InternalError";
pub const AR: &str = "AlertReceived";
pub const IO: &str = "IoFailure";

/// what RFC 5246 (7.2) defines, except close_notify
pub const ALERTS: [u8; 24] = [10, 20, 21, 22, 30, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 60, 70, 71, 80, 90, 100, 110];

pub fn alert_for(kind: &str) -> Option<u8> {
    Some(match kind {
        UM => 10,
        BRM => 20,
        RO => 22,
        IP => 47,
        DE => 50,
        DY => 51,
        IE => 80,
        _ => return None,
    })
}

const CAP: usize = 1 << 14;
const ENC_CAP: usize = CAP + 2048;

#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    Order,
    Malformed,
    Param,
    Finished,
    Mac,
    Size,
    Alert,
    Ccs,
    Type,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// all of the handshake is right; position after the record that completed Finished
    Done(usize),
    /// must be refused once these many bytes arrived; acceptable failure kinds
    Reject { why: Why, kinds: Vec<&'static str>, pos: usize, what: String },
    /// the bytes end in the middle
    Need,
}

#[derive(Clone, Debug)]
pub struct Hs {
    pub verdict: Verdict,
    /// the specification leaves room (success and failure are both fine)
    pub maybe: bool,
    /// position at which a complete, correctly ordered, acceptable first flight had arrived
    pub flight1_at: Option<usize>,
    /// handshake messages received (concatenated)
    pub msgs: Vec<u8>,
    /// sequence number of the next server record
    pub seq: u64,
    /// handshake bytes behind Finished
    pub left: Vec<u8>,
    pub server_random: Vec<u8>,
    pub server_point: Vec<u8>,
    /// the handshake messages were cut by the end of the data (type of the message being received)
    pub partial: bool,
}

/// What the client sent in the clear.
#[derive(Clone, Debug, Default)]
pub struct CRec {
    pub start: usize,
    pub end: usize,
    pub ct: u8,
    pub ver: u16,
    pub len: usize,
    pub prot: bool,
    pub complete: bool,
    pub seq: Option<u64>,
    pub plain: Vec<u8>,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct C2s {
    pub recs: Vec<CRec>,
    pub hs: Vec<(usize, Vec<u8>)>,
    pub ccs_at: Option<usize>,
    pub client_random: Vec<u8>,
    pub cke_at: Option<usize>,
    pub cke_point: Vec<u8>,
    pub problems: Vec<(&'static str, String)>,
    /// (position, protected, level, description)
    pub alerts: Vec<(usize, bool, u8, u8)>,
    pub keys: Option<Keys>,
}

fn next_break(breaks: &[usize], start: usize, end: usize) -> Option<usize> {
    breaks.get(breaks.partition_point(|b| *b <= start)).copied().filter(|b| *b < end)
}

pub fn parse_c2s(plan: &Plan, o: &Outcome, server_random: &dyn Fn() -> (Vec<u8>, Vec<u8>)) -> C2s {
    let d = &o.c2s;
    let mut c = C2s::default();
    let faulty = o.counts.wfaults + o.counts.ffaults > 0;
    let mut pos = 0;
    let mut hsbuf: Vec<u8> = vec![];
    let mut hsbuf_start = 0;
    let mut prot = false;
    let mut expect: u64 = 0;
    let skip = if o.connected() { plan.srv.skip_c } else { 0 };
    let mut max_seen: u64 = 0;
    let mut app_off: u64 = 0;
    while pos < d.len() {
        let avail = d.len() - pos;
        let (ct, ver, len) = if avail >= 5 {
            (d[pos], u16::from_be_bytes([d[pos + 1], d[pos + 2]]), u16::from_be_bytes([d[pos + 3], d[pos + 4]]) as usize)
        } else {
            (d[pos], 0x0303, 0)
        };
        let end = pos + 5 + len;
        let cut = if faulty { next_break(&o.breaks, pos, end.min(d.len())) } else { None };
        let whole = avail >= 5 && end <= d.len();
        let mut rec = CRec { start: pos, end, ct, ver, len, prot, complete: whole, seq: None, plain: vec![], bytes: vec![] };
        if !prot {
            if !whole || cut.is_some() {
                let e = cut.unwrap_or(d.len());
                rec.complete = false;
                rec.end = e;
                rec.bytes = d[pos..e].to_vec();
                if !faulty && o.failed.is_none() {
                    c.problems.push(("frame", format!("incomplete record at {}", pos)));
                }
                if e < d.len() && e > pos {
                    c.problems.push(("frame", format!("bytes follow a record broken off at {} (begun at {})", e, pos)));
                }
                c.recs.push(rec);
                pos = e;
                continue;
            }
            let body = d[pos + 5..end].to_vec();
            if ver != 0x0303 {
                c.problems.push(("version", format!("record at {} has version {:04x}", pos, ver)));
            }
            if len > CAP {
                c.problems.push(("size", format!("record at {} has {} bytes", pos, len)));
            }
            match ct {
                20 => {
                    if body != [1] {
                        c.problems.push(("frame", format!("cipher change payload {:?}", body)));
                    }
                    c.ccs_at = Some(pos);
                    prot = true;
                    if c.keys.is_none() {
                        let (sr, pt) = server_random();
                        c.keys = client_keys(plan, o, &c, &sr, &pt);
                    }
                }
                21 => {
                    if body.len() == 2 {
                        c.alerts.push((pos, false, body[0], body[1]));
                    } else {
                        c.problems.push(("frame", "alert with odd length".into()));
                    }
                }
                22 => {
                    if hsbuf.is_empty() {
                        hsbuf_start = pos;
                    }
                    if body.is_empty() {
                        c.problems.push(("frame", "empty handshake record".into()));
                    }
                    hsbuf.extend_from_slice(&body);
                    take_hs(&mut hsbuf, hsbuf_start, &mut c);
                }
                23 => c.problems.push(("clear", format!("application data in the clear at {}", pos))),
                t => c.problems.push(("frame", format!("record type {}", t))),
            }
            rec.plain = body.clone();
            rec.bytes = d[pos..end].to_vec();
            c.recs.push(rec);
            pos = end;
            continue;
        }
        // protected
        let mut opened = None;
        if whole {
            if let Some(k) = &c.keys {
                // a window around what should come next: ahead (numbers may be skipped) and behind (reuse)
                let hi = expect + 6;
                let mut order: Vec<u64> = (expect..hi).collect();
                order.extend((expect.saturating_sub(6)..expect).rev());
                order.extend(0..4);
                for s in order {
                    if let Some(p) = open_rec(&k.ck, &k.civ, wire_seq(skip, s), ct, ver, &d[pos + 5..end]) {
                        opened = Some((s, p));
                        break;
                    }
                }
            }
        }
        match opened {
            Some((s, p)) => {
                rec.seq = Some(s);
                rec.bytes = d[pos..end].to_vec();
                if ver != 0x0303 {
                    c.problems.push(("version", format!("record at {} has version {:04x}", pos, ver)));
                }
                if p.len() > CAP {
                    c.problems.push(("size", format!("record at {} has {} content bytes", pos, p.len())));
                }
                match ct {
                    21 if p.len() == 2 => c.alerts.push((pos, true, p[0], p[1])),
                    22 => {
                        if hsbuf.is_empty() {
                            hsbuf_start = pos;
                        }
                        hsbuf.extend_from_slice(&p);
                        take_hs(&mut hsbuf, hsbuf_start, &mut c);
                    }
                    23 => app_off += p.len() as u64,
                    _ => c.problems.push(("frame", format!("protected record of type {} with {} bytes", ct, p.len()))),
                }
                rec.plain = p;
                if s + 1 > expect {
                    expect = s + 1;
                }
                max_seen = max_seen.max(s);
                c.recs.push(rec);
                pos = end;
            }
            None => {
                let e = cut.unwrap_or(end.min(d.len()));
                let partial = cut.is_some() || !whole;
                if cut.is_some() && e < d.len() {
                    c.problems.push(("protect", format!("bytes follow a record broken off at {} (begun at {})", e, pos)));
                }
                rec.end = e;
                rec.complete = false;
                rec.bytes = d[pos..e].to_vec();
                if !partial || (!faulty && o.failed.is_none()) {
                    c.problems.push(("protect", format!("bytes {}..{} after the cipher change are not a record under the client key", pos, e)));
                } else if e > pos + 5 {
                    // a record broken off by a transport failure: find its nonce by its key stream
                    let ctext = &d[pos + 5..e];
                    let mut cands: Vec<Vec<u8>> = vec![];
                    // where in the attempted stream this record starts
                    let call = o.calls.iter().find(|r| r.c2s_before <= pos && pos < r.c2s_after);
                    if let Some(r) = call {
                        let done: u64 = c.recs.iter().filter(|x| x.prot && x.ct == 23 && x.start >= r.c2s_before).map(|x| x.plain.len() as u64).sum();
                        let from = ((r.attempted + done) as usize).min(o.app.len());
                        cands.push(o.app[from..(from + ctext.len()).min(o.app.len())].to_vec());
                    }
                    for cand in &cands {
                        if ctext.len() < 4 {
                            continue;
                        }
                        if cand.len() >= 4 && ctext[..] == cand[..] {
                            c.problems.push(("clear", format!("application bytes in the clear at {}", pos)));
                        }
                    }
                    if let Some(k) = &c.keys {
                        for s in 0..=expect + 4 {
                            let ks = refc::chacha_xor(&k.ck, &nonce(&k.civ, wire_seq(skip, s)), ctext);
                            if ctext.len() >= 4 && cands.iter().any(|x| x.len() >= 4 && ks[..x.len().min(ks.len()).min(64)] == x[..x.len().min(ks.len()).min(64)]) {
                                rec.seq = Some(s);
                                rec.plain = ks;
                                break;
                            }
                            if ct == 22 && ctext.len() >= 4 && ks[..4] == [20, 0, 0, 12] {
                                rec.seq = Some(s);
                                rec.plain = ks;
                                break;
                            }
                        }
                    }
                    if let Some(s) = rec.seq {
                        expect = expect.max(s + 1);
                    }
                }
                let _ = app_off;
                c.recs.push(rec);
                pos = e;
            }
        }
    }
    c
}

fn take_hs(buf: &mut Vec<u8>, start: usize, c: &mut C2s) {
    while buf.len() >= 4 {
        let n = 4 + ((buf[1] as usize) << 16 | (buf[2] as usize) << 8 | buf[3] as usize);
        if buf.len() < n {
            if buf[0] == 16 && c.cke_at.is_none() {
                c.cke_at = Some(start);
            }
            return;
        }
        let m: Vec<u8> = buf.drain(..n).collect();
        if m[0] == 1 && m.len() >= 38 && c.client_random.is_empty() {
            c.client_random = m[6..38].to_vec();
        }
        if m[0] == 16 {
            if c.cke_at.is_none() {
                c.cke_at = Some(start);
            }
            if m.len() > 5 {
                c.cke_point = m[5..].to_vec();
            }
        }
        c.hs.push((start, m));
    }
}

/// The keys the client must be using, from what it received and sent.
fn client_keys(plan: &Plan, o: &Outcome, c: &C2s, server_random: &[u8], server_point: &[u8]) -> Option<Keys> {
    let (d, public) = plan.srv.key.pair(plan.srv.seed);
    if server_point != &public[..] || server_random.len() != 32 {
        return None;
    }
    let pms = match d {
        Some(d) => ecdh(d, &c.cke_point)?,
        None => pms_unknown(&o.entropy, &public, &c.cke_point)?,
    };
    Some(derive(&pms, &c.client_random, server_random))
}

struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn num(&mut self, n: usize) -> Option<usize> {
        Some(self.take(n)?.iter().fold(0, |a, b| a << 8 | *b as usize))
    }
}

#[derive(Debug)]
enum Bad {
    Malformed(String),
    Param(String, Vec<&'static str>),
}

fn hello(b: &[u8], maybe: &mut bool) -> Result<Vec<u8>, Bad> {
    let m = |s: &str| Bad::Malformed(format!("server hello: {}", s));
    let mut c = Cur(b);
    let ver = c.num(2).ok_or(m("version"))?;
    let random = c.take(32).ok_or(m("random"))?.to_vec();
    let n = c.num(1).ok_or(m("session id length"))?;
    if n > 32 {
        return Err(m("session id longer than 32"));
    }
    c.take(n).ok_or(m("session id"))?;
    let suite = c.num(2).ok_or(m("cipher suite"))?;
    let comp = c.num(1).ok_or(m("compression"))?;
    if !c.0.is_empty() {
        let n = c.num(2).ok_or(m("extensions length"))?;
        if n != c.0.len() {
            return Err(m("extensions length does not match"));
        }
        let mut e = Cur(c.take(n).unwrap());
        let mut seen = vec![];
        while !e.0.is_empty() {
            let t = e.num(2).ok_or(m("extension type"))?;
            let l = e.num(2).ok_or(m("extension length"))?;
            let d = e.take(l).ok_or(m("extension data"))?;
            if seen.contains(&t) {
                *maybe = true;
            }
            seen.push(t);
            match t {
                11 => {
                    if d.is_empty() || d.len() != 1 + d[0] as usize || d[0] == 0 {
                        return Err(m("point formats"));
                    }
                    if d[1..].iter().any(|x| *x > 2) || !d[1..].contains(&0) {
                        *maybe = true;
                    }
                }
                10 | 13 => {
                    // not for server hellos; their inner structure may or may not be looked at
                    *maybe = true;
                }
                _ => *maybe = true,
            }
        }
    }
    // an undefined compression method may also be found while decoding
    let k = if comp > 1 { vec![IP, DE] } else { vec![IP] };
    if ver != 0x0303 {
        return Err(Bad::Param(format!("version {:04x}", ver), k));
    }
    if suite != 0xcca8 {
        return Err(Bad::Param(format!("cipher suite {:04x}", suite), k));
    }
    if comp != 0 {
        return Err(Bad::Param(format!("compression {}", comp), vec![IP, DE]));
    }
    Ok(random)
}

fn certs(b: &[u8], maybe: &mut bool) -> Result<(), Bad> {
    let m = |s: &str| Bad::Malformed(format!("certificate: {}", s));
    let mut c = Cur(b);
    let n = c.num(3).ok_or(m("length"))?;
    if n != c.0.len() {
        return Err(m("list length does not match"));
    }
    if n == 0 {
        *maybe = true;
    }
    while !c.0.is_empty() {
        let l = c.num(3).ok_or(m("certificate length"))?;
        if l == 0 {
            return Err(m("empty certificate"));
        }
        c.take(l).ok_or(m("certificate data"))?;
    }
    Ok(())
}

pub fn valid_point(p: &[u8]) -> bool {
    refc::Affine::from_bytes(p).is_some()
}

fn key_exchange(b: &[u8], maybe: &mut bool) -> Result<Vec<u8>, Bad> {
    let m = |s: &str| Bad::Malformed(format!("server key exchange: {}", s));
    let mut c = Cur(b);
    let ty = c.num(1).ok_or(m("curve type"))?;
    if ty != 3 {
        return Err(Bad::Param(format!("curve type {}", ty), vec![IP, DE]));
    }
    let curve = c.num(2).ok_or(m("curve"))?;
    let n = c.num(1).ok_or(m("point length"))?;
    let wrong_curve = curve != 23;
    let point = match c.take(n) {
        Some(p) => p.to_vec(),
        None if wrong_curve => return Err(Bad::Param(format!("curve {}", curve), vec![IP, DE])),
        None => return Err(m("point")),
    };
    let rest = (|| {
        let h = c.num(1)?;
        let s = c.num(1)?;
        let n = c.num(2)?;
        c.take(n)?;
        Some((h, s))
    })();
    if wrong_curve {
        return Err(Bad::Param(format!("curve {}", curve), vec![IP, DE]));
    }
    match rest {
        None => Err(Bad::Malformed("server key exchange: signature".into())),
        Some((h, s)) => {
            if (h, s) != (4, 1) {
                *maybe = true;
            }
            if !valid_point(&point) {
                return Err(Bad::Param(format!("point of {} bytes is not a canonical curve point", n), vec![IP, DE]));
            }
            if !c.0.is_empty() {
                return Err(Bad::Malformed("server key exchange: trailing bytes".into()));
            }
            Ok(point)
        }
    }
}

fn known_hs(t: u8) -> bool {
    matches!(t, 0 | 1 | 2 | 11 | 12 | 13 | 14 | 16 | 20)
}

/// Runs the model over the first `limit` bytes of the stream.
pub fn handshake(s: &[u8], limit: usize, c: &C2s) -> Hs {
    let s = &s[..limit.min(s.len())];
    let mut h = Hs { verdict: Verdict::Need, maybe: false, flight1_at: None, msgs: vec![], seq: 0, left: vec![], server_random: vec![], server_point: vec![], partial: false };
    let mut pos = 0;
    let mut buf: Vec<u8> = vec![];
    let order = [2u8, 11, 12, 14];
    let mut next = 0; // index into order; 4 = cipher change; 5 = Finished
    let mut prot = false;
    macro_rules! reject {
        ($why:expr, $kinds:expr, $pos:expr, $($a:tt)*) => {{
            h.verdict = Verdict::Reject { why: $why, kinds: $kinds, pos: $pos, what: format!($($a)*) };
            return h;
        }};
    }
    loop {
        if pos >= s.len() {
            h.partial = !buf.is_empty();
            return h;
        }
        let ct = s[pos];
        if !(20..=23).contains(&ct) {
            if s.len() - pos < 5 {
                // a client may want the whole header before it looks at the type
                h.partial = true;
                return h;
            }
            reject!(Why::Type, vec![UM, DE, BRM, IP], pos + 5, "record type {}", ct);
        }
        if s.len() - pos < 5 {
            h.partial = true;
            return h;
        }
        let ver = u16::from_be_bytes([s[pos + 1], s[pos + 2]]);
        if ver >> 8 != 3 {
            h.maybe = true;
        }
        let len = u16::from_be_bytes([s[pos + 3], s[pos + 4]]) as usize;
        if len > ENC_CAP {
            reject!(Why::Size, vec![RO], pos + 5, "record length {}", len);
        }
        let end = pos + 5 + len;
        if s.len() < end {
            if len > if prot { CAP + 16 } else { CAP } {
                // too long whatever follows; a client may say so at once
                h.maybe = true;
            }
            h.partial = true;
            return h;
        }
        let raw = &s[pos + 5..end];
        let mut size_reject = false;
        let body: Vec<u8> = if prot {
            if len < 16 {
                reject!(Why::Mac, vec![BRM], end, "protected record of {} bytes", len);
            }
            let p = c.keys.as_ref().and_then(|k| open_rec(&k.sk, &k.siv, h.seq, ct, ver, raw));
            match p {
                Some(p) => {
                    h.seq += 1;
                    if p.len() > CAP {
                        size_reject = true;
                    }
                    p
                }
                None => {
                    let mut k = vec![BRM];
                    if len > CAP + 16 {
                        k.push(RO);
                    }
                    reject!(Why::Mac, k, end, "record does not authenticate")
                }
            }
        } else {
            if len > CAP {
                size_reject = true;
            }
            raw.to_vec()
        };
        if size_reject {
            reject!(Why::Size, vec![RO], end, "record content of {} bytes", body.len());
        }
        pos = end;
        match ct {
            20 => {
                if body != [1] {
                    reject!(Why::Ccs, vec![UM, DE, IP], pos, "cipher change with payload of {} bytes", body.len());
                }
                if next != 4 || !buf.is_empty() {
                    reject!(Why::Ccs, vec![UM], pos, "cipher change when {} expected, {} handshake bytes pending", next, buf.len());
                }
                next = 5;
                prot = true;
                h.seq = 0;
            }
            21 => {
                if body.len() == 2 && body[0] == 2 && next != 4 && ALERTS.contains(&body[1]) {
                    reject!(Why::Alert, vec![AR], pos, "fatal alert {}", body[1])
                }
                if body.len() == 2 && (1..=2).contains(&body[0]) {
                    reject!(Why::Alert, vec![AR, UM, DE], pos, "alert {:?}", body)
                }
                reject!(Why::Alert, vec![UM, DE, IP, AR], pos, "malformed alert {:?}", &body[..body.len().min(8)])
            }
            23 => reject!(Why::Order, vec![UM], pos, "application data during the handshake"),
            _ => {
                if body.is_empty() {
                    reject!(Why::Malformed, vec![UM, DE], pos, "empty handshake record");
                }
                buf.extend_from_slice(&body);
                while buf.len() >= 4 {
                    let n = 4 + ((buf[1] as usize) << 16 | (buf[2] as usize) << 8 | buf[3] as usize);
                    if buf.len() < n {
                        break;
                    }
                    let m: Vec<u8> = buf.drain(..n).collect();
                    let b = &m[4..];
                    if next < 4 {
                        if m[0] != order[next] {
                            let mut k = vec![UM];
                            if known_hs(m[0]) {
                                k.push(DE);
                                k.push(IP);
                            }
                            reject!(Why::Order, k, pos, "handshake message {} where {} belongs", m[0], order[next]);
                        }
                        let r = match next {
                            0 => hello(b, &mut h.maybe).map(|r| h.server_random = r),
                            1 => certs(b, &mut h.maybe),
                            2 => key_exchange(b, &mut h.maybe).map(|p| h.server_point = p),
                            _ if b.is_empty() => Ok(()),
                            _ => Err(Bad::Malformed("server hello done with a body".into())),
                        };
                        match r {
                            Ok(()) => {}
                            Err(Bad::Malformed(w)) => reject!(Why::Malformed, vec![DE, IP], pos, "{}", w),
                            Err(Bad::Param(w, k)) => {
                                let mut k = k;
                                if h.maybe && !k.contains(&DE) {
                                    k.push(DE);
                                }
                                reject!(Why::Param, k, pos, "{}", w)
                            }
                        }
                        h.msgs.extend_from_slice(&m);
                        next += 1;
                        if next == 4 {
                            h.flight1_at = Some(pos);
                        }
                    } else if next == 4 {
                        let mut k = vec![UM];
                        if known_hs(m[0]) {
                            k.push(DE);
                            k.push(IP);
                        }
                        reject!(Why::Order, k, pos, "handshake message {} where the cipher change belongs", m[0]);
                    } else {
                        if m[0] != 20 {
                            let mut k = vec![UM];
                            if known_hs(m[0]) {
                                k.push(DE);
                                k.push(IP);
                            }
                            reject!(Why::Order, k, pos, "handshake message {} where Finished belongs", m[0]);
                        }
                        if b.len() != 12 {
                            reject!(Why::Malformed, vec![DE, DY, IP], pos, "Finished of {} bytes", b.len());
                        }
                        let want = expected_finished(c, &h.msgs);
                        if want.as_deref() != Some(b) {
                            reject!(Why::Finished, vec![DY], pos, "wrong Finished value");
                        }
                        h.msgs.extend_from_slice(&m);
                        h.left = buf.clone();
                        h.verdict = Verdict::Done(pos);
                        return h;
                    }
                }
            }
        }
    }
}

/// The server Finished over the conversation as the client saw it.
fn expected_finished(c: &C2s, server_msgs: &[u8]) -> Option<Vec<u8>> {
    let k = c.keys.as_ref()?;
    let ch = c.hs.iter().find(|m| m.1[0] == 1)?;
    let cke = c.hs.iter().find(|m| m.1[0] == 16)?;
    let mut t = ch.1.clone();
    t.extend_from_slice(server_msgs);
    t.extend_from_slice(&cke.1);
    let fin = hs_msg(20, &finished(&k.master, b"client finished", &t));
    t.extend_from_slice(&fin);
    Some(finished(&k.master, b"server finished", &t))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Term {
    /// nothing further: the line is silent
    Open,
    /// authenticated close
    Eof,
    /// must fail with one of these kinds
    Error { kinds: Vec<&'static str>, why: Why, what: String },
    /// the transport ends or fails here
    Trunc,
}

#[derive(Clone, Debug)]
pub struct Reads {
    pub data: Vec<u8>,
    /// stream position at which each amount of data was complete: (stream position, data length)
    pub marks: Vec<(usize, usize)>,
    pub term: Term,
    /// stream position of the terminal event
    pub term_at: usize,
    /// from this data length on, failing is also acceptable
    pub maybe: Option<usize>,
    /// with an ambiguous close: end of stream acceptable from this data length on
    pub maybe_eof: Option<usize>,
    pub recs: u64,
}

impl Reads {
    pub fn data_at(&self, stream: usize) -> usize {
        match self.marks.partition_point(|m| m.0 <= stream) {
            0 => 0,
            i => self.marks[i - 1].1,
        }
    }
}

/// Application phase. `ended`: the transport ended after `limit` bytes.
pub fn reads(s: &[u8], from: usize, limit: usize, ended: bool, hs: &Hs, k: &Keys, skip: u64) -> Reads {
    let s = &s[..limit.min(s.len())];
    let mut r = Reads { data: vec![], marks: vec![], term: Term::Open, term_at: s.len(), maybe: None, maybe_eof: None, recs: 0 };
    let mut pos = from;
    let mut seq = if cfg!(husk_sim) { hs.seq.wrapping_add(skip) } else { hs.seq };
    let mut hsbuf = hs.left.clone();
    let silent = if ended { Term::Trunc } else { Term::Open };
    macro_rules! err {
        ($why:expr, $kinds:expr, $at:expr, $($a:tt)*) => {{
            r.term = Term::Error { kinds: $kinds, why: $why, what: format!($($a)*) };
            r.term_at = $at;
            return r;
        }};
    }
    if !hsbuf.is_empty() {
        r.maybe = Some(0);
    }
    loop {
        // complete handshake messages: hello requests are ignorable, everything else is unexpected
        while hsbuf.len() >= 4 {
            let n = 4 + ((hsbuf[1] as usize) << 16 | (hsbuf[2] as usize) << 8 | hsbuf[3] as usize);
            if hsbuf.len() < n {
                break;
            }
            let m: Vec<u8> = hsbuf.drain(..n).collect();
            if m[0] == 0 && n == 4 {
                r.maybe = Some(r.maybe.unwrap_or(r.data.len()));
                continue;
            }
            err!(Why::Order, vec![UM, DE, IP, "other"], pos, "handshake message {} after the handshake", m[0]);
        }
        if pos >= s.len() {
            r.term = silent;
            return r;
        }
        let ct = s[pos];
        if !(20..=23).contains(&ct) {
            if s.len() - pos < 5 {
                // a client may want the whole header before it looks at the type
                r.maybe = Some(r.maybe.unwrap_or(r.data.len()));
                r.term = silent;
                return r;
            }
            err!(Why::Type, vec![UM, BRM, DE], pos + 5, "record type {}", ct);
        }
        if s.len() - pos < 5 {
            r.term = silent;
            return r;
        }
        let ver = u16::from_be_bytes([s[pos + 1], s[pos + 2]]);
        let len = u16::from_be_bytes([s[pos + 3], s[pos + 4]]) as usize;
        if len > ENC_CAP {
            err!(Why::Size, vec![RO], pos + 5, "record length {}", len);
        }
        let end = pos + 5 + len;
        if s.len() < end {
            if len < 16 || len > CAP + 16 {
                // too short or too long whatever follows; a client may say so at once
                r.maybe = Some(r.maybe.unwrap_or(r.data.len()));
            }
            if ver != 0x0303 {
                r.maybe = Some(r.maybe.unwrap_or(r.data.len()));
            }
            r.term = silent;
            return r;
        }
        let raw = &s[pos + 5..end];
        if len < 16 {
            err!(Why::Mac, vec![BRM], end, "protected record of {} bytes", len);
        }
        let p = match open_rec(&k.sk, &k.siv, seq, ct, ver, raw) {
            Some(p) => p,
            None => {
                let mut kk = vec![BRM];
                if len > CAP + 16 {
                    kk.push(RO);
                }
                if ver != 0x0303 {
                    kk.extend([IP, DE, UM]);
                }
                err!(Why::Mac, kk, end, "record does not authenticate")
            }
        };
        seq += 1;
        r.recs += 1;
        if ver != 0x0303 {
            r.maybe = Some(r.maybe.unwrap_or(r.data.len()));
        }
        if p.len() > CAP {
            err!(Why::Size, vec![RO], end, "record content of {} bytes", p.len());
        }
        pos = end;
        match ct {
            23 => {
                if !hsbuf.is_empty() {
                    // data between the pieces of a handshake message
                    r.maybe = Some(r.maybe.unwrap_or(r.data.len()));
                }
                r.data.extend_from_slice(&p);
                r.marks.push((pos, r.data.len()));
            }
            20 => err!(Why::Ccs, vec![UM, DE, IP], pos, "cipher change after the handshake"),
            21 => {
                if p.len() == 2 && p[1] == 0 && (1..=2).contains(&p[0]) {
                    r.term = Term::Eof;
                    r.term_at = pos;
                    return r;
                }
                if p.len() == 2 && p[0] == 1 {
                    // warnings may be ignored or refused
                    r.maybe = Some(r.maybe.unwrap_or(r.data.len()));
                    continue;
                }
                if p.len() == 2 && p[0] == 2 && ALERTS.contains(&p[1]) {
                    err!(Why::Alert, vec![AR], pos, "fatal alert {}", p[1]);
                }
                if p.len() == 2 && p[0] == 2 {
                    err!(Why::Alert, vec![AR, UM, DE, IP], pos, "fatal alert {}", p[1]);
                }
                if p.len() >= 2 && p[1] == 0 {
                    // a close with odd level or trailing bytes
                    r.maybe = Some(r.maybe.unwrap_or(r.data.len()));
                    r.maybe_eof = Some(r.data.len());
                    r.term = Term::Error { kinds: vec![UM, DE, IP], why: Why::Alert, what: "malformed close".into() };
                    r.term_at = pos;
                    return r;
                }
                if p.len() > 2 {
                    r.maybe = Some(r.maybe.unwrap_or(r.data.len()));
                }
                err!(Why::Alert, vec![UM, DE, IP, AR], pos, "malformed alert")
            }
            _ => {
                if p.is_empty() {
                    err!(Why::Malformed, vec![UM, DE], pos, "empty handshake record");
                }
                hsbuf.extend_from_slice(&p);
                // a client may refuse renegotiation at the first byte
                r.maybe = Some(r.maybe.unwrap_or(r.data.len()));
            }
        }
    }
}
