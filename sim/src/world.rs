//! The simulated world of one connection: transport, clock, event queue, attacker and server.
//! It advances only when the client's transport calls (or the final drain) pump it.
use crate::alloc;
use crate::plan::*;
use crate::prng::H;
use crate::server::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::rc::Rc;
use std::sync::Arc;

pub enum Ev {
    C2s(Vec<u8>),
    S2c(usize),
    S2cEnd,
    Step,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Counts {
    pub reads: u64,
    pub writes: u64,
    pub flushes: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub eintr: u64,
    pub rfaults: u64,
    pub wfaults: u64,
    pub ffaults: u64,
    pub timeouts: u64,
    pub backpressure: u64,
    pub held: u64,
    pub atk: u64,
    pub atk_c: u64,
    pub eof: u64,
    pub delays: u64,
    pub entropy_fail: u64,
    pub shutdowns: u64,
    pub clock_reads: u64,
    pub sleeps: u64,
    /// failures the client brought about itself (a time-out, non-blocking mode or shutdown it set on the socket)
    pub self_fail: u64,
    /// socket option calls that failed
    pub opt_fails: u64,
    /// connections whose record numbers were moved ahead
    pub far: u64,
}

impl Counts {
    pub fn list(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("read_calls", self.reads),
            ("write_calls", self.writes),
            ("flush_calls", self.flushes),
            ("short_reads", self.short_reads),
            ("short_writes", self.short_writes),
            ("eintr", self.eintr),
            ("read_errors", self.rfaults),
            ("write_errors", self.wfaults),
            ("flush_errors", self.ffaults),
            ("read_timeouts", self.timeouts),
            ("back_pressure_stalls", self.backpressure),
            ("held_writes", self.held),
            ("attacker_edits_s2c", self.atk),
            ("attacker_edits_c2s", self.atk_c),
            ("end_of_stream", self.eof),
            ("delayed_deliveries", self.delays),
            ("entropy_failures", self.entropy_fail),
            ("clock_readings", self.clock_reads),
            ("sleeps", self.sleeps),
            ("socket_shutdowns", self.shutdowns),
            ("socket_option_errors", self.opt_fails),
            ("connections_with_far_record_numbers", self.far),
        ]
    }
    pub fn add(&mut self, o: &Counts) {
        macro_rules! a { ($($f:ident),*) => { $( self.$f += o.$f; )* } }
        a!(reads, writes, flushes, short_reads, short_writes, eintr, rfaults, wfaults, ffaults, timeouts, backpressure, held, atk, atk_c, eof, delays, entropy_fail, shutdowns, clock_reads, sleeps, self_fail, opt_fails, far);
    }
}

/// Splits a byte stream into records and applies edits.
#[derive(Default)]
struct Cutter {
    edits: Vec<RecEdit>,
    buf: Vec<u8>,
    idx: u32,
    history: Vec<Vec<u8>>,
    held: Option<Vec<u8>>,
    cut: bool,
    mute: bool,
    applied: u64,
}

impl Cutter {
    /// one whole record in, bytes out
    fn record(&mut self, rec: Vec<u8>, other: &[Vec<u8>]) -> Vec<u8> {
        if self.cut || self.mute {
            return vec![];
        }
        let i = self.idx;
        self.idx += 1;
        if !self.edits.is_empty() {
            self.history.push(rec.clone());
        }
        let mut cur: Vec<Vec<u8>> = vec![rec];
        let mut before: Vec<Vec<u8>> = vec![];
        let mut hold = false;
        for e in &self.edits {
            if e.at != i {
                continue;
            }
            self.applied += 1;
            match &e.op {
                RecOp::Drop => cur.clear(),
                RecOp::Dup => {
                    let c = cur.clone();
                    cur.extend(c)
                }
                RecOp::SwapNext => hold = true,
                RecOp::Replay(k) => {
                    if let Some(r) = self.history.get(*k as usize) {
                        before.push(r.clone())
                    }
                }
                RecOp::Reflect(k) => {
                    if let Some(r) = other.get(*k as usize) {
                        before.push(r.clone())
                    }
                }
                RecOp::Inject { ct, ver, body } => before.push(raw_rec(*ct, *ver, &body.0)),
                RecOp::InjectRaw(b) => before.push(b.0.clone()),
                RecOp::Cut => {
                    self.cut = true;
                    cur.clear();
                }
                RecOp::Mute => {
                    self.mute = true;
                    cur.clear();
                }
                RecOp::Split(n) => {
                    if let Some(r) = cur.pop() {
                        let n = *n as usize;
                        if r.len() > 5 && n > 0 && n < r.len() - 5 {
                            let ver = u16::from_be_bytes([r[1], r[2]]);
                            cur.push(raw_rec(r[0], ver, &r[5..5 + n]));
                            cur.push(raw_rec(r[0], ver, &r[5 + n..]));
                        } else {
                            cur.push(r)
                        }
                    }
                }
                op => {
                    if let Some(r) = cur.last_mut() {
                        edit_rec(r, op)
                    }
                }
            }
        }
        let mut out = before.concat();
        out.extend(cur.concat());
        if hold && self.held.is_none() {
            self.held = Some(out);
            return vec![];
        }
        if let Some(h) = self.held.take() {
            out.extend(h);
        }
        out
    }

    fn bytes(&mut self, data: &[u8], other: &[Vec<u8>]) -> Vec<u8> {
        self.buf.extend_from_slice(data);
        let mut out = vec![];
        loop {
            if self.buf.len() < 5 {
                break;
            }
            let n = 5 + u16::from_be_bytes([self.buf[3], self.buf[4]]) as usize;
            if self.buf.len() < n {
                break;
            }
            let r: Vec<u8> = self.buf.drain(..n).collect();
            out.extend(self.record(r, other));
        }
        out
    }
}

pub fn edit_rec(r: &mut Vec<u8>, op: &RecOp) {
    let fix = |r: &mut Vec<u8>| {
        let n = (r.len() - 5) as u16;
        r[3..5].copy_from_slice(&n.to_be_bytes());
    };
    if r.len() < 5 {
        return;
    }
    match op {
        RecOp::Xor(o, m) => {
            let n = r.len();
            r[*o as usize % n] ^= m
        }
        RecOp::SetType(t) => r[0] = *t,
        RecOp::SetVer(v) => r[1..3].copy_from_slice(&v.to_be_bytes()),
        RecOp::SetLen(l) => r[3..5].copy_from_slice(&l.to_be_bytes()),
        RecOp::Truncate(n, f) => {
            r.truncate(5 + *n as usize);
            if *f {
                fix(r)
            }
        }
        RecOp::Append(b, f) => {
            r.extend_from_slice(&b.0);
            if *f && r.len() - 5 <= 65535 {
                fix(r)
            }
        }
        _ => {}
    }
}

/// Hands control from one simulated thread to another at transport calls.
pub struct Baton {
    m: std::sync::Mutex<BatonSt>,
    cv: std::sync::Condvar,
}
struct BatonSt {
    cur: usize,
    alive: Vec<bool>,
    sched: Vec<u8>,
    i: usize,
    switches: u64,
}
impl Baton {
    pub fn new(n: usize, sched: Vec<u8>) -> Baton {
        Baton { m: std::sync::Mutex::new(BatonSt { cur: 0, alive: vec![true; n], sched, i: 0, switches: 0 }), cv: std::sync::Condvar::new() }
    }
    fn pick(s: &mut BatonSt) {
        let alive: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i]).collect();
        if alive.is_empty() {
            return;
        }
        let k = if s.sched.is_empty() { s.i } else { s.sched[s.i % s.sched.len()] as usize };
        s.i += 1;
        let next = alive[k % alive.len()];
        if next != s.cur {
            s.switches += 1;
        }
        s.cur = next;
    }
    pub fn wait(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        while s.cur != me {
            s = self.cv.wait(s).unwrap();
        }
    }
    pub fn yield_now(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        Baton::pick(&mut s);
        self.cv.notify_all();
        while s.cur != me {
            s = self.cv.wait(s).unwrap();
        }
    }
    pub fn done(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.alive[me] = false;
        Baton::pick(&mut s);
        self.cv.notify_all();
    }
    pub fn switches(&self) -> u64 {
        self.m.lock().unwrap().switches
    }
}

pub struct SpinStop;

pub struct World {
    pub net: Net,
    pub srv: Server,
    cut_s: Cutter,
    cut_c: Cutter,
    /// records each side sent, for reflection
    c_recs: Vec<Vec<u8>>,
    c_recbuf: Vec<u8>,
    s_recs: Vec<Vec<u8>>,
    keep_recs: bool,
    pub now: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), Ev>,
    s2c_t: u64,
    c2s_t: u64,
    seg_i: usize,
    delay_i: usize,
    cdelay_i: usize,
    ri: usize,
    rint_i: usize,
    rint_left: u32,
    wi: usize,
    wint_i: usize,
    wint_left: u32,
    fint_i: usize,
    fint_left: u32,
    rint_fresh: bool,
    wint_fresh: bool,
    fint_fresh: bool,
    /// everything the client handed to the transport
    pub c2s: Vec<u8>,
    /// how much of it left the (buffering) transport
    pub c2s_rel: usize,
    c2s_inflight: usize,
    /// original server bytes and what was forwarded
    pub s2c_orig: Vec<u8>,
    pub s2c: Vec<u8>,
    s2c_sched: usize,
    pub s2c_arrived: usize,
    pub s2c_consumed: usize,
    end_sched: bool,
    /// the server's stream ended (not by the attacker or an idle peer)
    pub end_arrived: bool,
    step_sched: bool,
    rfault_n: Vec<u32>,
    wfault_n: Vec<u32>,
    ffault_n: Vec<u32>,
    flush_i: u64,
    pub stuck: Option<&'static str>,
    pub spin: bool,
    idle_calls: u32,
    pub counts: Counts,
    /// (client bytes accepted so far, server bytes consumed so far) after each accepting write
    pub wmarks: Vec<(usize, usize)>,
    /// positions in c2s at which a write call failed or an API call ended
    pub breaks: Vec<usize>,
    /// a transport failure was reported to the client (read/write/flush)
    pub failed: Option<String>,
    /// c2s length when the first failure was reported
    pub failed_at: usize,
    pub fail_reads: u64,
    pub trace: H,
    pub verbose: Option<Vec<String>>,
    pub baton: Option<(Arc<Baton>, usize)>,
    /// what the client itself configured on the socket
    /// socket option calls fail with this, for now
    pub opt_fail: i32,
    pub sock_rto: u64,
    pub sock_sto: u64,
    pub sock_nonblock: bool,
    pub sock_rd_shut: bool,
    pub sock_wr_shut: bool,
    /// closing the socket throws away what has not arrived yet (SO_LINGER with no time)
    pub sock_abort: bool,
    wall: i64,
}

macro_rules! say {
    ($w:expr, $($a:tt)*) => { if let Some(v) = &mut $w.verbose { if v.len() < 4000 { v.push(format!($($a)*)); } } }
}

impl World {
    pub fn new(p: &Plan) -> World {
        let keep = p.atk.iter().chain(p.atk_c.iter()).any(|e| matches!(e.op, RecOp::Reflect(_)));
        let mut w = World {
            net: p.net.clone(),
            srv: Server::new(p.srv.clone()),
            cut_s: Cutter { edits: p.atk.clone(), ..Default::default() },
            cut_c: Cutter { edits: p.atk_c.clone(), ..Default::default() },
            c_recs: vec![],
            c_recbuf: vec![],
            s_recs: vec![],
            keep_recs: keep,
            now: 0,
            seq: 0,
            q: BTreeMap::new(),
            s2c_t: 0,
            c2s_t: 0,
            seg_i: 0,
            delay_i: 0,
            cdelay_i: 0,
            ri: 0,
            rint_i: 0,
            rint_left: 0,
            wi: 0,
            wint_i: 0,
            wint_left: 0,
            fint_i: 0,
            fint_left: 0,
            rint_fresh: true,
            wint_fresh: true,
            fint_fresh: true,
            c2s: vec![],
            c2s_rel: 0,
            c2s_inflight: 0,
            s2c_orig: vec![],
            s2c: vec![],
            s2c_sched: 0,
            s2c_arrived: 0,
            s2c_consumed: 0,
            end_sched: false,
            end_arrived: false,
            step_sched: false,
            rfault_n: vec![0; p.net.rfault.len()],
            wfault_n: vec![0; p.net.wfault.len()],
            ffault_n: vec![0; p.net.ffault.len()],
            flush_i: 0,
            stuck: None,
            spin: false,
            idle_calls: 0,
            counts: Counts::default(),
            wmarks: vec![],
            breaks: vec![],
            failed: None,
            failed_at: 0,
            fail_reads: 0,
            trace: H::new(),
            verbose: None,
            baton: None,
            opt_fail: 0,
            sock_rto: 0,
            sock_sto: 0,
            sock_nonblock: false,
            sock_rd_shut: false,
            sock_wr_shut: false,
            sock_abort: false,
            wall: p.net.clock,
        };
        w.collect();
        w
    }

    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.insert((t, self.seq), e);
    }

    /// takes what the server produced, runs it past the attacker, schedules delivery
    fn collect(&mut self) {
        let out = std::mem::take(&mut self.srv.out);
        for rec in out {
            self.s2c_orig.extend_from_slice(&rec);
            if self.keep_recs {
                self.s_recs.push(rec.clone());
            }
            let was = self.cut_s.cut;
            let f = self.cut_s.record(rec, &self.c_recs);
            self.forward(f);
            if self.cut_s.cut && !was {
                self.schedule_end();
            }
        }
        self.counts.atk = self.cut_s.applied;
        self.counts.atk_c = self.cut_c.applied;
        if self.srv.ended && !self.cut_s.mute {
            if let Some(h) = self.cut_s.held.take() {
                self.forward(h);
            }
            self.schedule_end();
        }
        if !self.step_sched {
            if let Some(d) = self.srv.next_step() {
                self.step_sched = true;
                let t = self.now + d as u64;
                self.at(t, Ev::Step);
            }
        }
    }

    fn forward(&mut self, f: Vec<u8>) {
        if f.is_empty() || self.end_sched {
            return;
        }
        self.s2c.extend_from_slice(&f);
        let mut left = f.len();
        while left > 0 {
            let n = if self.net.seg.is_empty() {
                left
            } else {
                let s = self.net.seg[self.seg_i % self.net.seg.len()] as usize;
                self.seg_i += 1;
                if s == 0 { left } else { s.min(left) }
            };
            let d = if self.net.delay.is_empty() {
                0
            } else {
                self.delay_i += 1;
                self.net.delay[(self.delay_i - 1) % self.net.delay.len()] as u64
            };
            if d > 0 {
                self.counts.delays += 1;
            }
            self.s2c_t = self.s2c_t.max(self.now) + d;
            self.s2c_sched += n;
            let upto = self.s2c_sched;
            let t = self.s2c_t;
            self.at(t, Ev::S2c(upto));
            left -= n;
        }
    }

    fn schedule_end(&mut self) {
        if !self.end_sched {
            self.end_sched = true;
            self.s2c_t = self.s2c_t.max(self.now);
            let t = self.s2c_t;
            self.at(t, Ev::S2cEnd);
        }
    }

    fn to_server(&mut self, data: &[u8]) {
        if self.keep_recs {
            self.c_recbuf.extend_from_slice(data);
            while self.c_recbuf.len() >= 5 {
                let n = 5 + u16::from_be_bytes([self.c_recbuf[3], self.c_recbuf[4]]) as usize;
                if self.c_recbuf.len() < n {
                    break;
                }
                let r: Vec<u8> = self.c_recbuf.drain(..n).collect();
                self.c_recs.push(r);
            }
        }
        if self.cut_c.edits.is_empty() {
            self.srv.on_bytes(data);
        } else {
            let f = self.cut_c.bytes(data, &self.s_recs);
            self.srv.on_bytes(&f);
        }
        self.collect();
    }

    /// next event; false if nothing is pending
    pub fn pump(&mut self) -> bool {
        let (key, ev) = match self.q.pop_first() {
            Some(x) => x,
            None => {
                // nobody has anything left to do: release what the attacker holds, then let an idle peer hang up
                if let Some(h) = self.cut_s.held.take() {
                    self.forward(h);
                    return true;
                }
                if let Some(h) = self.cut_c.held.take() {
                    self.srv.on_bytes(&h);
                    self.collect();
                    return true;
                }
                if self.srv.p.idle_eof && !self.end_sched && !self.cut_s.mute {
                    self.schedule_end();
                    return true;
                }
                return false;
            }
        };
        self.now = self.now.max(key.0);
        match ev {
            Ev::C2s(d) => {
                self.c2s_inflight -= d.len();
                self.to_server(&d);
            }
            Ev::S2c(upto) => self.s2c_arrived = upto,
            Ev::S2cEnd => self.end_arrived = true,
            Ev::Step => {
                self.step_sched = false;
                self.srv.run_step();
                self.collect();
            }
        }
        true
    }

    /// The client was dropped, and its socket closed.
    pub fn closed(&mut self) {
        if self.sock_abort {
            self.q.retain(|_, e| !matches!(e, Ev::C2s(_)));
        }
    }

    pub fn drain(&mut self) {
        while self.pump() {}
    }

    fn release(&mut self) {
        let n = self.c2s.len() - self.c2s_rel;
        if n == 0 {
            return;
        }
        let d = self.c2s[self.c2s_rel..].to_vec();
        self.c2s_rel = self.c2s.len();
        self.c2s_inflight += n;
        let dl = if self.net.cdelay.is_empty() {
            0
        } else {
            self.cdelay_i += 1;
            self.net.cdelay[(self.cdelay_i - 1) % self.net.cdelay.len()] as u64
        };
        self.c2s_t = self.c2s_t.max(self.now) + dl;
        let t = self.c2s_t;
        self.at(t, Ev::C2s(d));
    }

    fn progress(&mut self) {
        self.idle_calls = 0;
    }

    fn no_progress(&mut self) {
        self.idle_calls += 1;
        if self.idle_calls > 3000 {
            self.spin = true;
            if !self.net.tcp && self.idle_calls > 20_000 {
                std::panic::resume_unwind(Box::new(SpinStop));
            }
            if self.idle_calls > 50_000_000 {
                eprintln!("spinning client does not give up");
                std::process::abort();
            }
        }
    }

    fn note_fail(&mut self, what: String) {
        if self.failed.is_none() {
            self.failed = Some(what);
            self.failed_at = self.c2s.len();
        }
    }

    fn find_fault(list: &[Fault], used: &[u32], pos: u64) -> Option<usize> {
        list.iter().enumerate().position(|(i, f)| f.off <= pos && (f.n == 0 || used[i] < f.n))
    }

    fn next_fault_off(list: &[Fault], used: &[u32], pos: u64) -> Option<u64> {
        list.iter().enumerate().filter(|(i, f)| f.off > pos && (f.n == 0 || used[*i] < f.n)).map(|(_, f)| f.off).min()
    }

    pub fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.counts.reads += 1;
        self.trace.add(1);
        self.trace.add(buf.len() as u64);
        if self.stuck.is_some() || self.spin {
            self.no_progress();
            return Err(FKind::TimedOut.io());
        }
        if !self.net.rintr.is_empty() {
            if self.rint_fresh {
                self.rint_left = self.net.rintr[self.rint_i % self.net.rintr.len()] as u32;
                self.rint_i += 1;
                self.rint_fresh = false;
            }
            if self.rint_left > 0 {
                self.rint_left -= 1;
                self.counts.eintr += 1;
                self.no_progress();
                self.trace.add(0xe1);
                say!(self, "read({}) -> EINTR", buf.len());
                return Err(io::Error::from_raw_os_error(libc::EINTR));
            }
            self.rint_fresh = true;
        }
        if buf.is_empty() {
            self.no_progress();
            return Ok(0);
        }
        let pos = self.s2c_consumed as u64;
        if let Some(i) = World::find_fault(&self.net.rfault, &self.rfault_n, pos) {
            self.rfault_n[i] += 1;
            let k = self.net.rfault[i].kind;
            self.counts.rfaults += 1;
            self.note_fail(format!("read {:?} at byte {}", k, pos));
            self.fail_reads += 1;
            self.no_progress();
            self.trace.add(0xe2 + (k.code() << 8));
            say!(self, "read({}) at byte {} -> {:?}", buf.len(), pos, k);
            return if k == FKind::Zero { Ok(0) } else { Err(k.io()) };
        }
        let mut wait = self.net.rtimeout as u64;
        if self.sock_rto > 0 && (wait == 0 || self.sock_rto < wait) {
            wait = self.sock_rto;
        }
        let deadline = if self.sock_nonblock {
            Some(self.now)
        } else if wait > 0 {
            Some(self.now + wait)
        } else {
            None
        };
        if self.sock_rd_shut {
            self.note_fail("read side shut down".into());
            self.counts.self_fail += 1;
            self.fail_reads += 1;
            self.no_progress();
            return Ok(0);
        }
        while self.s2c_arrived == self.s2c_consumed {
            if self.end_arrived {
                self.counts.eof += 1;
                self.note_fail("end of stream".into());
                self.fail_reads += 1;
                self.no_progress();
                self.trace.add(0xe3);
                say!(self, "read({}) -> end of stream at byte {}", buf.len(), pos);
                return Ok(0);
            }
            let late = match (deadline, self.q.first_key_value()) {
                (Some(d), Some((k, _))) => k.0 > d,
                (Some(_), None) => !self.pump(),
                _ => false,
            };
            if late {
                self.now = deadline.unwrap();
                self.counts.timeouts += 1;
                if self.sock_nonblock || (self.sock_rto > 0 && wait == self.sock_rto) {
                    self.counts.self_fail += 1;
                }
                self.note_fail(format!("read time-out at byte {}", pos));
                self.fail_reads += 1;
                self.no_progress();
                self.trace.add(0xe4);
                say!(self, "read({}) -> time-out at byte {}", buf.len(), pos);
                return Err(FKind::WouldBlock.io());
            }
            if !self.pump() {
                self.stuck = Some("read");
                self.trace.add(0xe5);
                say!(self, "read({}) at byte {} waits for ever", buf.len(), pos);
                return Err(FKind::TimedOut.io());
            }
        }
        let avail = self.s2c_arrived - self.s2c_consumed;
        let mut n = avail.min(buf.len());
        if !self.net.rchunk.is_empty() {
            let c = self.net.rchunk[self.ri % self.net.rchunk.len()] as usize;
            self.ri += 1;
            if c > 0 {
                n = n.min(c)
            }
        }
        if let Some(o) = World::next_fault_off(&self.net.rfault, &self.rfault_n, pos) {
            n = n.min((o - pos) as usize);
        }
        buf[..n].copy_from_slice(&self.s2c[self.s2c_consumed..self.s2c_consumed + n]);
        self.s2c_consumed += n;
        if n < buf.len() {
            self.counts.short_reads += 1;
        }
        self.progress();
        self.trace.add(n as u64);
        say!(self, "read({}) -> {} bytes (from {}) t={}us", buf.len(), n, pos, self.now);
        Ok(n)
    }

    pub fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.counts.writes += 1;
        self.trace.add(2);
        self.trace.add(buf.len() as u64);
        if self.stuck.is_some() || self.spin {
            self.no_progress();
            return Err(FKind::TimedOut.io());
        }
        if !self.net.wintr.is_empty() {
            if self.wint_fresh {
                self.wint_left = self.net.wintr[self.wint_i % self.net.wintr.len()] as u32;
                self.wint_i += 1;
                self.wint_fresh = false;
            }
            if self.wint_left > 0 {
                self.wint_left -= 1;
                self.counts.eintr += 1;
                self.no_progress();
                self.trace.add(0xf1);
                say!(self, "write({}) -> EINTR", buf.len());
                return Err(io::Error::from_raw_os_error(libc::EINTR));
            }
            self.wint_fresh = true;
        }
        if buf.is_empty() {
            self.no_progress();
            return Ok(0);
        }
        let pos = self.c2s.len() as u64;
        if self.sock_wr_shut {
            self.note_fail(format!("write at byte {} after shutdown", pos));
            self.counts.self_fail += 1;
            self.counts.wfaults += 1;
            self.breaks.push(self.c2s.len());
            self.no_progress();
            return Err(FKind::BrokenPipe.io());
        }
        if let Some(i) = World::find_fault(&self.net.wfault, &self.wfault_n, pos) {
            self.wfault_n[i] += 1;
            let k = self.net.wfault[i].kind;
            self.counts.wfaults += 1;
            self.note_fail(format!("write {:?} at byte {}", k, pos));
            self.breaks.push(self.c2s.len());
            self.no_progress();
            self.trace.add(0xf2 + (k.code() << 8));
            say!(self, "write({}) at byte {} -> {:?}", buf.len(), pos, k);
            return if k == FKind::Zero { Ok(0) } else { Err(k.io()) };
        }
        let mut n = buf.len();
        if self.net.window > 0 && !self.net.hold {
            let w = self.net.window as usize;
            if self.c2s_inflight >= w {
                self.counts.backpressure += 1;
            }
            let deadline = if self.sock_nonblock {
                Some(self.now)
            } else if self.sock_sto > 0 {
                Some(self.now + self.sock_sto)
            } else {
                None
            };
            while self.c2s_inflight >= w {
                if let (Some(d), Some((k, _))) = (deadline, self.q.first_key_value()) {
                    if k.0 > d {
                        // the time-out the client put on its socket
                        self.now = self.now.max(d);
                        self.counts.timeouts += 1;
                        self.counts.self_fail += 1;
                        self.note_fail(format!("write time-out at byte {}", pos));
                        self.breaks.push(self.c2s.len());
                        self.no_progress();
                        self.trace.add(0xf6);
                        return Err(FKind::WouldBlock.io());
                    }
                }
                if !self.pump() {
                    self.stuck = Some("write");
                    self.trace.add(0xf5);
                    return Err(FKind::TimedOut.io());
                }
            }
            n = n.min(w - self.c2s_inflight);
        }
        if !self.net.wchunk.is_empty() {
            let c = self.net.wchunk[self.wi % self.net.wchunk.len()] as usize;
            self.wi += 1;
            if c > 0 {
                n = n.min(c)
            }
        }
        if let Some(o) = World::next_fault_off(&self.net.wfault, &self.wfault_n, pos) {
            n = n.min((o - pos) as usize);
        }
        if n < buf.len() {
            self.counts.short_writes += 1;
        }
        self.c2s.extend_from_slice(&buf[..n]);
        self.wmarks.push((self.c2s.len(), self.s2c_consumed));
        if self.net.hold {
            self.counts.held += 1;
            if self.net.hold_cap > 0 && self.c2s.len() - self.c2s_rel > self.net.hold_cap as usize {
                self.release();
            }
        } else {
            self.release();
        }
        self.progress();
        self.trace.add(n as u64);
        say!(self, "write({}) -> {} accepted (at {}) t={}us", buf.len(), n, pos, self.now);
        Ok(n)
    }

    /// A look at what has arrived, without waiting: it takes nothing and meets no fault.
    fn peek(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        while self.s2c_arrived == self.s2c_consumed && !self.end_arrived {
            match self.q.first_key_value() {
                Some((k, _)) if k.0 <= self.now => {
                    if !self.pump() {
                        break;
                    }
                }
                _ => break,
            }
        }
        self.no_progress();
        let n = (self.s2c_arrived - self.s2c_consumed).min(buf.len());
        if n == 0 && !self.end_arrived && !buf.is_empty() {
            return Err(FKind::WouldBlock.io());
        }
        buf[..n].copy_from_slice(&self.s2c[self.s2c_consumed..self.s2c_consumed + n]);
        Ok(n)
    }

    /// Is the socket readable, is it writable? Waits for up to `ms` (for ever if negative).
    fn poll(&mut self, rd: bool, wr: bool, ms: i32) -> (bool, bool) {
        let deadline = if ms < 0 { None } else { Some(self.now + ms as u64 * 1000) };
        loop {
            let fault = World::find_fault(&self.net.rfault, &self.rfault_n, self.s2c_consumed as u64).is_some();
            let r = rd && (self.s2c_arrived > self.s2c_consumed || self.end_arrived || fault || self.sock_rd_shut);
            let w = wr && (self.net.hold || self.net.window == 0 || self.c2s_inflight < self.net.window as usize);
            if r || w {
                return (r, w);
            }
            let next = self.q.first_key_value().map(|(k, _)| k.0);
            match (deadline, next) {
                (Some(d), n) if n.map_or(true, |n| n > d) => {
                    self.now = self.now.max(d);
                    self.no_progress();
                    return (false, false);
                }
                _ => {
                    if !self.pump() {
                        self.stuck = Some("poll");
                        return (rd, wr);
                    }
                }
            }
        }
    }

    pub fn flush(&mut self) -> io::Result<()> {
        self.counts.flushes += 1;
        self.trace.add(3);
        if self.stuck.is_some() || self.spin {
            self.no_progress();
            return Err(FKind::TimedOut.io());
        }
        if !self.net.fintr.is_empty() {
            if self.fint_fresh {
                self.fint_left = self.net.fintr[self.fint_i % self.net.fintr.len()] as u32;
                self.fint_i += 1;
                self.fint_fresh = false;
            }
            if self.fint_left > 0 {
                self.fint_left -= 1;
                self.counts.eintr += 1;
                self.no_progress();
                return Err(io::Error::from_raw_os_error(libc::EINTR));
            }
            self.fint_fresh = true;
        }
        let i = self.flush_i;
        self.flush_i += 1;
        if let Some(k) = World::find_fault(&self.net.ffault, &self.ffault_n, i) {
            self.ffault_n[k] += 1;
            let kind = self.net.ffault[k].kind;
            self.counts.ffaults += 1;
            self.note_fail(format!("flush {:?} (call {})", kind, i));
            self.breaks.push(self.c2s.len());
            self.no_progress();
            say!(self, "flush -> {:?}", kind);
            return Err(if kind == FKind::Zero { FKind::Other.io() } else { kind.io() });
        }
        self.release();
        self.trace.add(0xf7);
        say!(self, "flush -> ok");
        Ok(())
    }
}

impl World {
    /// microseconds since some start: monotonic, or the skewed and jumping wall clock
    fn clock(&mut self, wall: bool) -> i64 {
        let i = self.counts.clock_reads as usize;
        self.counts.clock_reads += 1;
        // looking at the clock takes time, so waiting for it in a loop ends
        self.now += 1;
        if wall {
            if !self.net.cjump.is_empty() {
                self.wall += self.net.cjump[i % self.net.cjump.len()] as i64;
            }
            (1_700_000_000i64 + self.wall).max(0) * 1_000_000 + self.now as i64
        } else {
            1_000_000_000 + self.now as i64
        }
    }
    fn sleep(&mut self, us: u64) {
        self.counts.sleeps += 1;
        self.now += us;
        while let Some((k, _)) = self.q.first_key_value() {
            if k.0 > self.now {
                break;
            }
            self.pump();
        }
    }
}

pub type Shared = Rc<RefCell<World>>;

fn yield_point(w: &Shared) {
    let b = w.borrow().baton.clone();
    if let Some((b, me)) = b {
        b.yield_now(me);
    }
}

pub struct CRead(pub Shared);
pub struct CWrite(pub Shared);

/// the same error, in memory that counts as the client's
fn own(e: io::Error) -> io::Error {
    if e.get_ref().is_none() {
        return e;
    }
    let text = e.to_string();
    let kind = e.kind();
    drop(e);
    let on = alloc::set(true);
    let e = io::Error::new(kind, text.as_str());
    alloc::set(on);
    e
}

impl io::Read for CRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let on = alloc::set(false);
        yield_point(&self.0);
        let r = self.0.borrow_mut().read(buf).map_err(own);
        alloc::set(on);
        r
    }
}

impl io::Write for CWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let on = alloc::set(false);
        yield_point(&self.0);
        let r = self.0.borrow_mut().write(buf).map_err(own);
        alloc::set(on);
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let on = alloc::set(false);
        yield_point(&self.0);
        let r = self.0.borrow_mut().flush().map_err(own);
        alloc::set(on);
        r
    }
}

// ---- the TCP seam: the socket calls of this binary ----

thread_local! {
    static TCP: RefCell<Option<Shared>> = const { RefCell::new(None) };
}

thread_local! {
    static CLOCK: RefCell<Option<Shared>> = const { RefCell::new(None) };
}

/// clock readings and sleeps on this thread go to this world
pub fn clock_install(w: Option<Shared>) -> Option<Shared> {
    CLOCK.with(|c| std::mem::replace(&mut *c.borrow_mut(), w))
}

fn clock_world() -> Option<Shared> {
    CLOCK.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}

fn sim_clock(id: i32) -> Option<i64> {
    let w = clock_world()?;
    let on = alloc::set(false);
    let r = w.try_borrow_mut().ok().map(|mut w| w.clock(id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE));
    drop(w);
    alloc::set(on);
    r
}

fn sim_sleep(us: u64) -> bool {
    let Some(w) = clock_world() else { return false };
    let on = alloc::set(false);
    let r = w.try_borrow_mut().map(|mut w| w.sleep(us)).is_ok();
    drop(w);
    alloc::set(on);
    r
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if let Some(us) = sim_clock(id) {
        (*ts).tv_sec = us / 1_000_000;
        (*ts).tv_nsec = us % 1_000_000 * 1000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as i32
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: usize) -> i32 {
    if let Some(us) = sim_clock(libc::CLOCK_REALTIME) {
        (*tv).tv_sec = us / 1_000_000;
        (*tv).tv_usec = us % 1_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_gettimeofday, tv, tz) as i32
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if sim_sleep((*ts).tv_sec as u64 * 1_000_000 + (*ts).tv_nsec as u64 / 1000) {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, ts, rem) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    let us = (*ts).tv_sec as u64 * 1_000_000 + (*ts).tv_nsec as u64 / 1000;
    let us = if flags & libc::TIMER_ABSTIME != 0 {
        match clock_world().and_then(|w| w.try_borrow().ok().map(|w| w.now)) {
            Some(now) => us.saturating_sub(1_000_000_000 + now),
            None => us,
        }
    } else {
        us
    };
    if sim_sleep(us) {
        return 0;
    }
    if libc::syscall(libc::SYS_clock_nanosleep, id, flags, ts, rem) == 0 { 0 } else { *libc::__errno_location() }
}

/// all socket reads and writes on this thread go to this world
pub fn tcp_install(w: Option<Shared>) -> Option<Shared> {
    TCP.with(|c| std::mem::replace(&mut *c.borrow_mut(), w))
}

fn tcp_world() -> Option<Shared> {
    TCP.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}

unsafe fn ret(r: io::Result<usize>) -> isize {
    match r {
        Ok(n) => n as isize,
        Err(e) => {
            let code = e.raw_os_error().unwrap_or(match e.kind() {
                io::ErrorKind::ConnectionReset => libc::ECONNRESET,
                io::ErrorKind::TimedOut => libc::ETIMEDOUT,
                io::ErrorKind::WouldBlock => libc::EAGAIN,
                io::ErrorKind::BrokenPipe => libc::EPIPE,
                io::ErrorKind::ConnectionAborted => libc::ECONNABORTED,
                io::ErrorKind::NotConnected => libc::ENOTCONN,
                _ => libc::EIO,
            });
            *libc::__errno_location() = code;
            -1
        }
    }
}

unsafe fn sim_recv(w: Shared, buf: *mut u8, len: usize, flags: i32) -> isize {
    let on = alloc::set(false);
    yield_point(&w);
    let s = std::slice::from_raw_parts_mut(buf, len);
    let r = {
        let mut w = w.borrow_mut();
        let (was, at) = (w.sock_nonblock, w.s2c_consumed);
        w.sock_nonblock |= flags & libc::MSG_DONTWAIT != 0;
        if flags & libc::MSG_PEEK != 0 && w.sock_nonblock {
            let r = w.peek(s);
            w.sock_nonblock = was;
            drop(w);
            alloc::set(on);
            return ret(r);
        }
        let mut r = w.read(s);
        if flags & libc::MSG_WAITALL != 0 {
            // stops early only for an end or failure
            let mut pos = *r.as_ref().unwrap_or(&0);
            while pos > 0 && pos < len {
                match w.read(&mut s[pos..]) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => pos += n,
                }
                r = Ok(pos);
            }
        }
        w.sock_nonblock = was;
        if flags & libc::MSG_PEEK != 0 {
            w.s2c_consumed = at;
        }
        r
    };
    alloc::set(on);
    drop(w);
    ret(r)
}

unsafe fn sim_send(w: Shared, buf: *const u8, len: usize, flags: i32) -> isize {
    let on = alloc::set(false);
    yield_point(&w);
    let s = std::slice::from_raw_parts(buf, len);
    let r = {
        let mut w = w.borrow_mut();
        let was = w.sock_nonblock;
        w.sock_nonblock |= flags & libc::MSG_DONTWAIT != 0;
        let r = w.write(s);
        w.sock_nonblock = was;
        r
    };
    alloc::set(on);
    drop(w);
    ret(r)
}

thread_local!(static DUP_FAIL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

/// From now on duplicating a descriptor fails on this thread (or works again).
pub fn dup_fail(on: bool) {
    DUP_FAIL.with(|d| d.set(on))
}

/// `fcntl` is variadic in C; its one optional argument is passed like a fixed one.
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if (cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD) && DUP_FAIL.try_with(|d| d.get()).unwrap_or(false) {
        *libc::__errno_location() = libc::EMFILE;
        return -1;
    }
    if cmd == libc::F_SETFL {
        if opt_fails() {
            return -1;
        }
        if let Some(w) = tcp_world() {
            if is_socket(fd) {
                w.borrow_mut().sock_nonblock = arg as i32 & libc::O_NONBLOCK != 0;
                return 0;
            }
        }
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as i32
}

/// Does this socket call fail, by the plan?
unsafe fn opt_fails() -> bool {
    let Some(w) = tcp_world() else { return false };
    let mut w = w.borrow_mut();
    if w.opt_fail == 0 {
        return false;
    }
    w.counts.opt_fails += 1;
    *libc::__errno_location() = w.opt_fail;
    true
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, level: i32, name: i32, val: *mut libc::c_void, len: *mut u32) -> i32 {
    if opt_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_getsockopt, fd, level, name, val, len) as i32
}

/// an address of the documentation ranges
unsafe fn put_addr(v6: bool, port: u16, host: u8, addr: *mut libc::sockaddr, len: *mut u32) {
    let room = *len as usize;
    if v6 {
        let mut a: libc::sockaddr_in6 = std::mem::zeroed();
        a.sin6_family = libc::AF_INET6 as u16;
        a.sin6_port = port.to_be();
        a.sin6_addr.s6_addr = [0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, host];
        let n = std::mem::size_of_val(&a);
        std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, addr as *mut u8, n.min(room));
        *len = n as u32;
    } else {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as u16;
        a.sin_port = port.to_be();
        a.sin_addr.s_addr = u32::from_ne_bytes([192, 0, 2, host]);
        let n = std::mem::size_of_val(&a);
        std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, addr as *mut u8, n.min(room));
        *len = n as u32;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: i32, addr: *mut libc::sockaddr, len: *mut u32) -> i32 {
    if opt_fails() {
        return -1;
    }
    if let Some(w) = tcp_world() {
        // the simulated peer
        put_addr(w.borrow().net.v6, 443, 1, addr, len);
        return 0;
    }
    libc::syscall(libc::SYS_getpeername, fd, addr, len) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: i32, addr: *mut libc::sockaddr, len: *mut u32) -> i32 {
    if opt_fails() {
        return -1;
    }
    if let Some(w) = tcp_world() {
        put_addr(w.borrow().net.v6, 50_000, 2, addr, len);
        return 0;
    }
    libc::syscall(libc::SYS_getsockname, fd, addr, len) as i32
}

/// Time-outs the client puts on its socket run on the simulated clock. Everything else goes to the
/// (unconnected) descriptor.
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, val: *const libc::c_void, len: u32) -> i32 {
    if opt_fails() {
        return -1;
    }
    if let Some(w) = tcp_world() {
        if level == libc::SOL_SOCKET && (name == libc::SO_RCVTIMEO || name == libc::SO_SNDTIMEO) {
            if len as usize >= std::mem::size_of::<libc::timeval>() {
                let t = std::ptr::read_unaligned(val as *const libc::timeval);
                let us = t.tv_sec as u64 * 1_000_000 + t.tv_usec as u64;
                let mut w = w.borrow_mut();
                if name == libc::SO_RCVTIMEO {
                    w.sock_rto = us
                } else {
                    w.sock_sto = us
                }
            }
            return 0;
        }
        if level == libc::SOL_SOCKET && name == libc::SO_LINGER && len as usize >= std::mem::size_of::<libc::linger>() {
            let l = std::ptr::read_unaligned(val as *const libc::linger);
            w.borrow_mut().sock_abort = l.l_onoff != 0 && l.l_linger == 0;
        }
    }
    libc::syscall(libc::SYS_setsockopt, fd, level, name, val, len) as i32
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, req: libc::c_ulong, arg: usize) -> i32 {
    if req == libc::FIONBIO {
        if opt_fails() {
            return -1;
        }
        if let Some(w) = tcp_world() {
            if is_socket(fd) {
                w.borrow_mut().sock_nonblock = *(arg as *const i32) != 0;
                return 0;
            }
        }
    }
    libc::syscall(libc::SYS_ioctl, fd, req, arg) as i32
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut libc::c_void, len: usize, flags: i32) -> isize {
    match tcp_world() {
        Some(w) => sim_recv(w, buf as *mut u8, len, flags),
        _ => libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, 0usize, 0usize) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, buf: *const libc::c_void, len: usize, flags: i32) -> isize {
    match tcp_world() {
        Some(w) => sim_send(w, buf as *const u8, len, flags),
        None => libc::syscall(libc::SYS_sendto, fd, buf, len, flags, 0usize, 0usize) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: i32, buf: *mut libc::c_void, len: usize, flags: i32, addr: *mut libc::sockaddr, alen: *mut u32) -> isize {
    match tcp_world() {
        Some(w) if is_socket(fd) => sim_recv(w, buf as *mut u8, len, flags),
        _ => libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, addr, alen) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn sendto(fd: i32, buf: *const libc::c_void, len: usize, flags: i32, addr: *const libc::sockaddr, alen: u32) -> isize {
    match tcp_world() {
        Some(w) if is_socket(fd) => sim_send(w, buf as *const u8, len, flags),
        _ => libc::syscall(libc::SYS_sendto, fd, buf, len, flags, addr, alen as usize) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, len: usize) -> isize {
    match tcp_world() {
        Some(w) if is_socket(fd) => sim_recv(w, buf as *mut u8, len, 0),
        _ => libc::syscall(libc::SYS_read, fd, buf, len) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, len: usize) -> isize {
    match tcp_world() {
        Some(w) if is_socket(fd) => sim_send(w, buf as *const u8, len, 0),
        _ => libc::syscall(libc::SYS_write, fd, buf, len) as isize,
    }
}

/// waits for one simulated socket (the time it waits at most is the simulated one)
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: i32) -> i32 {
    if let Some(w) = tcp_world() {
        if n == 1 && is_socket((*fds).fd) {
            let on = alloc::set(false);
            yield_point(&w);
            let events = (*fds).events;
            let got = w.borrow_mut().poll(events & libc::POLLIN != 0, events & libc::POLLOUT != 0, timeout);
            alloc::set(on);
            (*fds).revents = (if got.0 { libc::POLLIN } else { 0 }) | (if got.1 { libc::POLLOUT } else { 0 });
            return (got.0 || got.1) as i32;
        }
    }
    libc::syscall(libc::SYS_poll, fds, n, timeout) as i32
}

fn is_socket(fd: i32) -> bool {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(fd, &mut st) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFSOCK
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if let Some(w) = tcp_world() {
        if is_socket(fd) {
            let v = std::slice::from_raw_parts(iov, n as usize);
            let mut all = vec![];
            for i in v {
                all.extend_from_slice(std::slice::from_raw_parts(i.iov_base as *const u8, i.iov_len));
            }
            return sim_send(w, all.as_ptr(), all.len(), 0);
        }
    }
    libc::syscall(libc::SYS_writev, fd, iov, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if let Some(w) = tcp_world() {
        if is_socket(fd) {
            let v = std::slice::from_raw_parts(iov, n as usize);
            for i in v {
                if i.iov_len > 0 {
                    return sim_recv(w, i.iov_base as *mut u8, i.iov_len, 0);
                }
            }
            return 0;
        }
    }
    libc::syscall(libc::SYS_readv, fd, iov, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: i32, how: i32) -> i32 {
    if let Some(w) = tcp_world() {
        let mut w = w.borrow_mut();
        w.counts.shutdowns += 1;
        if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
            w.sock_rd_shut = true;
        }
        if how == libc::SHUT_WR || how == libc::SHUT_RDWR {
            w.sock_wr_shut = true;
        }
        return 0;
    }
    libc::syscall(libc::SYS_shutdown, fd, how) as i32
}
