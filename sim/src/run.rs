//! Runs one plan against the real client and records the history.
use crate::alloc;
use crate::plan::*;
use crate::prng::{content, stream, H};
use crate::server::{craft, wire_seq, Keys, ServerLog};
use crate::world::*;
use husk::tls_result::{TlsError, TlsResult};
use husk::TlsClient;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::net::TcpStream;
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const APP_KEY: u64 = 0xa99a;

pub trait Conn {
    /// continues as if this many more records had gone in either direction
    fn skip(&mut self, read: u64, write: u64);
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize>;
    fn write(&mut self, b: &[u8]) -> io::Result<usize>;
    fn write_all(&mut self, b: &[u8]) -> io::Result<()>;
    fn flush(&mut self) -> io::Result<()>;
    fn close(&mut self) -> TlsResult<()>;
    /// the same through other methods of std's traits; the number counts bytes that came before an error
    fn read_via(&mut self, via: u8, b: &mut [u8]) -> (usize, io::Result<usize>);
    fn read_end(&mut self, how: u8) -> (Vec<u8>, io::Result<()>);
    fn write_via(&mut self, via: u8, b: &[u8]) -> io::Result<usize>;
    fn write_all_via(&mut self, via: u8, b: &[u8]) -> io::Result<()>;
}

/// two cuts of 0..n that depend on n only
fn cuts(n: usize) -> (usize, usize) {
    let (a, b) = (n * 7919 % (n + 1), n * 104_729 % (n + 1));
    (a.min(b), a.max(b))
}

impl<R: Read, W: Write> Conn for TlsClient<R, W> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        Read::read(self, b)
    }
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Write::write(self, b)
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        Write::write_all(self, b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Write::flush(self)
    }
    fn read_via(&mut self, via: u8, b: &mut [u8]) -> (usize, io::Result<usize>) {
        let n = b.len();
        match if via == 3 && n > 2000 { 2 } else { via } {
            0 => (0, Read::read(self, b)),
            1 => {
                let (x, y) = cuts(n);
                let (p, q) = b.split_at_mut(x);
                let (q, r) = q.split_at_mut(y - x);
                (0, self.read_vectored(&mut [io::IoSliceMut::new(p), io::IoSliceMut::new(q), io::IoSliceMut::new(r)]))
            }
            2 => {
                let mut v = vec![];
                let r = Read::by_ref(self).take(n as u64).read_to_end(&mut v);
                let m = v.len().min(n);
                b[..m].copy_from_slice(&v[..m]);
                if r.is_ok() { (0, Ok(m)) } else { (m, r) }
            }
            _ => {
                let mut m = 0;
                for x in Read::by_ref(self).bytes().take(n) {
                    match x {
                        Ok(x) => {
                            b[m] = x;
                            m += 1
                        }
                        Err(e) => return (m, Err(e)),
                    }
                }
                (0, Ok(m))
            }
        }
    }
    fn read_end(&mut self, how: u8) -> (Vec<u8>, io::Result<()>) {
        let mut v = vec![];
        let r = match how {
            0 => self.read_to_end(&mut v),
            1 => io::copy(self, &mut v).map(|n| n as usize),
            _ => io::BufReader::new(Read::by_ref(self)).read_to_end(&mut v),
        };
        (v, r.map(|_| ()))
    }
    fn write_via(&mut self, via: u8, b: &[u8]) -> io::Result<usize> {
        if via == 0 {
            return Write::write(self, b);
        }
        let (x, y) = cuts(b.len());
        if via > 1 && b.len() > 1 {
            // many pieces, with empty ones among them
            let n = if via == 2 { 1 + b.len() / 40 } else { 1 + b.len() / 1100 };
            let mut v = vec![];
            for c in b.chunks(n) {
                v.push(io::IoSlice::new(c));
                if v.len() % 5 == 3 {
                    v.push(io::IoSlice::new(&[]));
                }
            }
            return self.write_vectored(&v);
        }
        self.write_vectored(&[io::IoSlice::new(&b[..x]), io::IoSlice::new(&b[x..y]), io::IoSlice::new(&b[y..])])
    }
    fn write_all_via(&mut self, via: u8, mut b: &[u8]) -> io::Result<()> {
        match via {
            0 => Write::write_all(self, b),
            1 => io::copy(&mut b, self).map(|_| ()),
            2 => {
                let (x, y) = cuts(b.len());
                let mut all = (&b[..x]).chain(&b[x..y]).chain(&b[y..]);
                io::copy(&mut all, self).map(|_| ())
            }
            _ => {
                let mut w = io::BufWriter::with_capacity(1 + b.len() / 3, Write::by_ref(self));
                for c in b.chunks(1 + b.len() / 7) {
                    if let Err(e) = w.write_all(c) {
                        // no second attempt when it is dropped
                        let _ = w.into_parts();
                        return Err(e);
                    }
                }
                w.into_inner().map(|_| ()).map_err(|e| {
                    let (e, w) = e.into_parts();
                    let _ = w.into_parts();
                    e
                })
            }
        }
    }
    fn close(&mut self) -> TlsResult<()> {
        TlsClient::close(self)
    }
    #[cfg(husk_sim)]
    fn skip(&mut self, read: u64, write: u64) {
        self.reader.sim_skip_records(read);
        self.writer.sim_skip_records(write);
    }
    #[cfg(not(husk_sim))]
    fn skip(&mut self, _: u64, _: u64) {}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Connect,
    Read(usize),
    /// recorded as a read of what came and one of the end
    ReadEnd(u8),
    Write(usize),
    WriteAll(usize),
    Flush,
    Close,
    Drop,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(usize),
    /// error kind as the API shows it; TLS kind if there is one
    Err(String, Option<String>),
    Panic(String),
}

#[derive(Clone, Debug)]
pub struct CallRec {
    pub call: Call,
    pub res: Res,
    /// bytes of the application streams before this call: delivered / attempted
    pub delivered: usize,
    pub attempted: u64,
    pub c2s_before: usize,
    pub c2s_after: usize,
    pub rel_after: usize,
    pub s2c_after: usize,
    /// transport failures reported to the client before / during this call
    pub fail_before: bool,
    pub fail_during: bool,
    pub stuck: bool,
    pub spin: bool,
    pub shutdowns: u64,
    /// the client's own socket settings made a transport call fail
    pub self_fail: bool,
    /// bytes the client holds after the call
    pub live: i64,
}

#[derive(Clone)]
pub struct Outcome {
    pub calls: Vec<CallRec>,
    pub delivered: Vec<u8>,
    /// what the application tried to write
    pub app: Vec<u8>,
    pub c2s: Vec<u8>,
    pub c2s_rel: usize,
    pub breaks: Vec<usize>,
    pub wmarks: Vec<(usize, usize)>,
    pub s2c: Vec<u8>,
    pub s2c_orig: Vec<u8>,
    pub s2c_consumed: usize,
    pub stream_ended: bool,
    pub srv: ServerLog,
    pub counts: Counts,
    pub failed: Option<String>,
    pub failed_at: usize,
    pub entropy: Vec<u8>,
    pub entropy_failed: bool,
    pub mem_peak: i64,
    /// bytes still held once the client was dropped
    pub leaked: i64,
    pub sim_us: u64,
    pub hash: u64,
    pub log: Vec<String>,
}

impl Outcome {
    pub fn connected(&self) -> bool {
        matches!(self.calls.first(), Some(c) if matches!(c.res, Res::Ok(_)))
    }
    pub fn hs_kind(&self) -> Option<&str> {
        match &self.calls.first()?.res {
            Res::Err(_, Some(k)) => Some(k),
            _ => None,
        }
    }
}

pub struct EntropyState {
    p: Entropy,
    pub drawn: Rc<RefCell<Vec<u8>>>,
    pub failures: u32,
}

impl EntropyState {
    fn fill(&mut self, b: &mut [u8]) -> Result<(), u32> {
        let off = self.drawn.borrow().len();
        if let Some(f) = self.p.fail_at {
            if off + b.len() > f as usize && (self.p.fail_n == 0 || self.failures < self.p.fail_n) {
                self.failures += 1;
                return Err(libc::EIO as u32);
            }
        }
        let mut v = stream(self.p.seed ^ 0xe27, off as u64, b.len());
        for (o, s) in &self.p.set {
            for (i, x) in s.0.iter().enumerate() {
                let at = *o as usize + i;
                if at >= off && at < off + v.len() {
                    v[at - off] = *x;
                }
            }
        }
        for f in &self.p.flip {
            let at = *f as usize / 8;
            if at >= off && at < off + v.len() {
                v[at - off] ^= 1 << (f % 8);
            }
        }
        b.copy_from_slice(&v);
        self.drawn.borrow_mut().extend_from_slice(&v);
        Ok(())
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let on = alloc::set(false);
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
        let in_sim = i.location().map(|l| !l.file().contains("repo/") && l.file().starts_with("src/")).unwrap_or(false);
        if in_sim {
            eprintln!("simulator panic: {} at {}", m, loc);
        }
        let _ = PANIC.try_with(|c| *c.borrow_mut() = Some(format!("{} at {}", m, loc)));
        alloc::set(on);
    }));
}

struct Pending {
    call: Call,
}

pub struct Session {
    plan: Plan,
    pub world: Shared,
    ent: Rc<RefCell<EntropyState>>,
    conn: Option<Box<dyn Conn>>,
    started: bool,
    dead: bool,
    op_i: usize,
    /// progress inside a compound operation
    sub: u64,
    sub2: u64,
    out: Vec<CallRec>,
    delivered: Vec<u8>,
    app: Vec<u8>,
    attempted: u64,
    mem_base: i64,
    max_write: usize,
}

const MAX_READ: usize = 1 << 20;

impl Session {
    pub fn new(plan: &Plan, verbose: bool) -> Session {
        let mut w = World::new(plan);
        if verbose {
            w.verbose = Some(vec![]);
        }
        let drawn = w.srv.drawn.clone();
        Session {
            plan: plan.clone(),
            world: Rc::new(RefCell::new(w)),
            ent: Rc::new(RefCell::new(EntropyState { p: plan.entropy.clone(), drawn, failures: 0 })),
            conn: None,
            started: false,
            dead: false,
            op_i: 0,
            sub: 0,
            sub2: 0,
            out: vec![],
            delivered: vec![],
            app: vec![],
            attempted: 0,
            mem_base: 0,
            max_write: 0,
        }
    }

    fn next_call(&mut self) -> Option<Pending> {
        if !self.started {
            return Some(Pending { call: Call::Connect });
        }
        if self.dead {
            return None;
        }
        loop {
            let op = self.plan.ops.get(self.op_i)?.clone();
            let call = match op {
                Op::Write(n) => Call::Write(n as usize),
                Op::WriteAll(n) | Op::WriteCraft(n, _) => Call::WriteAll(n as usize),
                Op::WriteMany(c, n) => {
                    if self.sub >= c as u64 {
                        self.op_done();
                        continue;
                    }
                    Call::WriteAll(n as usize)
                }
                Op::Read(n) => Call::Read((n as usize).min(MAX_READ)),
                Op::ReadN(total, buf) => {
                    let left = (total as u64).saturating_sub(self.sub);
                    if left == 0 {
                        self.op_done();
                        continue;
                    }
                    Call::Read((buf.max(1) as u64).min(left) as usize)
                }
                Op::ReadAll(pat, max) => {
                    if self.sub2 >= max as u64 || pat.is_empty() {
                        self.op_done();
                        continue;
                    }
                    Call::Read((pat[self.sub2 as usize % pat.len()] as usize).min(MAX_READ))
                }
                Op::ReadEnd(how) => Call::ReadEnd(how),
                Op::Flush => Call::Flush,
                Op::Close => Call::Close,
            };
            return Some(Pending { call });
        }
    }

    fn op_done(&mut self) {
        self.op_i += 1;
        self.sub = 0;
        self.sub2 = 0;
    }

    fn after(&mut self, res: &Res, call: Call) {
        if call == Call::Connect {
            self.started = true;
            if !matches!(res, Res::Ok(_)) {
                self.dead = true;
            }
            return;
        }
        if matches!(res, Res::Panic(_)) {
            self.dead = true;
            return;
        }
        match &self.plan.ops[self.op_i] {
            Op::WriteMany(c, _) => {
                self.sub += 1;
                if self.sub >= *c as u64 || !matches!(res, Res::Ok(_)) {
                    self.op_done()
                }
            }
            Op::ReadN(..) => match res {
                Res::Ok(n) if *n > 0 => self.sub += *n as u64,
                _ => self.op_done(),
            },
            Op::ReadAll(pat, _) => {
                let asked = pat[self.sub2 as usize % pat.len()];
                self.sub2 += 1;
                match res {
                    Res::Ok(0) if asked > 0 => self.op_done(),
                    Res::Ok(_) => {}
                    _ => self.op_done(),
                }
            }
            _ => self.op_done(),
        }
    }

    /// One API call. False when there is nothing more to do.
    pub fn step(&mut self) -> bool {
        if self.world.borrow().stuck.is_some() || self.world.borrow().spin {
            return false;
        }
        let call = match self.next_call() {
            Some(p) => p.call,
            None => return false,
        };
        let (c2s_before, fail_reads, fails) = {
            let mut w = self.world.borrow_mut();
            w.breaks_push();
            if let Some(v) = &mut w.verbose {
                v.push(format!("== {:?}", call));
            }
            (w.c2s.len(), w.fail_total(), w.failed.is_some())
        };
        let delivered = self.delivered.len();
        let attempted = self.attempted;
        let ent = self.ent.clone();
        let old_src = getrandom::sim_install(Some(Box::new(move |b| {
            let on = alloc::set(false);
            let r = ent.borrow_mut().fill(b);
            alloc::set(on);
            r
        })));
        let old_tcp = if self.plan.net.tcp { Some(tcp_install(Some(self.world.clone()))) } else { None };

        let old_clock = clock_install(Some(self.world.clone()));
        let self_fails = self.world.borrow().counts.self_fail;
        let mut buf = vec![];
        let data = match call {
            Call::Write(n) | Call::WriteAll(n) => {
                self.max_write = self.max_write.max(n);
                let state = match self.plan.ops.get(self.op_i) {
                    Some(Op::WriteCraft(_, seed)) => self.world.borrow().client_write_state().map(|s| (*seed, s)),
                    _ => None,
                };
                let v = match state {
                    Some((seed, (k, seq))) => {
                        (0..n).step_by(1 << 14).zip(seq..).flat_map(|(o, q)| craft(&k.ck, &k.civ, q, (n - o).min(1 << 14), seed)).collect()
                    }
                    _ => content(self.plan.content, self.plan.entropy.seed ^ APP_KEY, self.attempted, n),
                };
                self.app.truncate(self.attempted as usize);
                self.app.extend_from_slice(&v);
                v
            }
            Call::Read(n) => {
                // a recognisable filler, so that claims of data never written show up
                buf = vec![0xA5u8; n];
                vec![]
            }
            _ => vec![],
        };
        let _ = PANIC.with(|p| p.borrow_mut().take());
        let conn = &mut self.conn;
        let world = &self.world;
        let plan = &self.plan;
        if call == Call::Connect {
            alloc::reset();
            let _ = self.mem_base;
        }
        let via = plan.via;
        let mut early = 0;
        let r = catch_unwind(AssertUnwindSafe(|| -> Res {
            alloc::set(true);
            let res = match call {
                Call::Connect => {
                    if plan.net.tcp {
                        let on = alloc::set(false);
                        let s = make_socket(plan.net.v6);
                        alloc::set(on);
                        dup_fail(plan.net.dup_fail);
                        world.borrow_mut().opt_fail = plan.net.opt_fail;
                        let r = TlsClient::from_tcp(s);
                        dup_fail(false);
                        world.borrow_mut().opt_fail = 0;
                        tls_res(r.map(|c| {
                            *conn = Some(Box::new(c));
                            conn.as_mut().unwrap().skip(plan.srv.skip_s, plan.srv.skip_c);
                        }))
                    } else {
                        tls_res(TlsClient::new(CRead(world.clone()), CWrite(world.clone()), rand::rngs::OsRng).map(|c| {
                            *conn = Some(Box::new(c));
                            conn.as_mut().unwrap().skip(plan.srv.skip_s, plan.srv.skip_c);
                        }))
                    }
                }
                Call::Read(_) => {
                    let (n, r) = conn.as_mut().unwrap().read_via(via, &mut buf);
                    early = n;
                    io_res(r)
                }
                Call::ReadEnd(how) => {
                    let (v, r) = conn.as_mut().unwrap().read_end(how);
                    let on = alloc::set(false);
                    early = v.len();
                    buf = v.clone();
                    alloc::set(on);
                    io_res(r.map(|_| 0))
                }
                Call::Write(_) => io_res(conn.as_mut().unwrap().write_via(via, &data)),
                Call::WriteAll(n) => io_res(conn.as_mut().unwrap().write_all_via(via, &data).map(|_| n)),
                Call::Flush => io_res(conn.as_mut().unwrap().flush().map(|_| 0)),
                Call::Close => tls_res(conn.as_mut().unwrap().close()),
                Call::Drop => Res::Ok(0),
            };
            alloc::set(false);
            res
        }));
        alloc::set(false);
        let live = alloc::live();
        dup_fail(false);
        if let Some(o) = old_tcp {
            tcp_install(o);
        }
        clock_install(old_clock);
        getrandom::sim_install(old_src);
        let res = match r {
            Ok(r) => r,
            Err(p) => {
                if p.downcast_ref::<SpinStop>().is_some() {
                    Res::Err("spin".into(), None)
                } else {
                    Res::Panic(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "?".into()))
                }
            }
        };
        match (call, &res) {
            (Call::Read(n), Res::Ok(m)) => {
                let m = (*m).min(n);
                self.delivered.extend_from_slice(&buf[..m]);
            }
            (Call::ReadEnd(_), _) | (Call::Read(_), Res::Err(..)) => self.delivered.extend_from_slice(&buf[..early]),
            (Call::Write(_), Res::Ok(m)) => self.attempted += *m as u64,
            (Call::Write(n), _) | (Call::WriteAll(n), _) => self.attempted += n as u64,
            _ => {}
        }
        let rec = {
            let mut w = self.world.borrow_mut();
            let (mut call, mut delivered) = (call, delivered);
            if let Call::ReadEnd(_) = call {
                call = Call::Read(1 + early);
            }
            if early > 0 {
                // what came before the error, as a call of its own
                self.out.push(CallRec {
                    call: Call::Read(early),
                    res: Res::Ok(early),
                    delivered,
                    attempted,
                    c2s_before,
                    c2s_after: c2s_before,
                    rel_after: w.c2s_rel,
                    s2c_after: w.s2c_consumed,
                    fail_before: fails,
                    fail_during: false,
                    stuck: false,
                    spin: false,
                    shutdowns: w.counts.shutdowns,
                    self_fail: false,
                    live: 0,
                });
                delivered += early;
                if let Call::Read(n) = call {
                    call = Call::Read(n - early)
                }
            }
            let r = CallRec {
                call,
                res: res.clone(),
                delivered,
                attempted,
                c2s_before,
                c2s_after: w.c2s.len(),
                rel_after: w.c2s_rel,
                s2c_after: w.s2c_consumed,
                fail_before: fails,
                fail_during: w.fail_total() > fail_reads,
                stuck: w.stuck.is_some(),
                spin: w.spin,
                shutdowns: w.counts.shutdowns,
                self_fail: w.counts.self_fail > self_fails,
                live,
            };
            if let Some(v) = &mut w.verbose {
                v.push(format!("   {:?} -> {:?}", call, res));
            }
            let mut h = w.trace;
            h.bytes(format!("{:?}{:?}", call, res).as_bytes());
            w.trace = h;
            r
        };
        self.out.push(rec);
        self.after(&res, call);
        true
    }

    pub fn finish(mut self) -> Outcome {
        // the application drops the client
        {
            self.world.borrow_mut().breaks_push();
        }
        let c2s_before = self.world.borrow().c2s.len();
        let conn = self.conn.take();
        let tcp = self.plan.net.tcp;
        let old = if tcp { Some(tcp_install(Some(self.world.clone()))) } else { None };
        let r = catch_unwind(AssertUnwindSafe(move || {
            alloc::set(true);
            drop(conn);
            alloc::set(false);
        }));
        alloc::set(false);
        if let Some(o) = old {
            tcp_install(o);
        }
        let mut w = self.world.borrow_mut();
        if r.is_err() || w.c2s.len() != c2s_before {
            let rec = CallRec {
                call: Call::Drop,
                res: if r.is_err() { Res::Panic("in drop".into()) } else { Res::Ok(0) },
                delivered: self.delivered.len(),
                attempted: self.attempted,
                c2s_before,
                c2s_after: w.c2s.len(),
                rel_after: w.c2s_rel,
                s2c_after: w.s2c_consumed,
                fail_before: w.failed.is_some(),
                fail_during: false,
                stuck: w.stuck.is_some(),
                spin: w.spin,
                shutdowns: w.counts.shutdowns,
                self_fail: false,
                    live: 0,
            };
            self.out.push(rec);
        }
        w.closed();
        w.drain();
        let ent = self.ent.borrow();
        let mut h = H::new();
        h.add(w.trace.0);
        h.bytes(&w.c2s);
        h.bytes(&w.s2c);
        h.bytes(&self.delivered);
        h.bytes(&w.srv.log.rx);
        h.add(w.s2c_consumed as u64);
        h.add(w.now);
        let mut counts = w.counts;
        let drawn = ent.drawn.borrow().clone();
        counts.far = (cfg!(husk_sim) && matches!(self.out.first(), Some(c) if matches!(c.res, Res::Ok(_))) && self.plan.srv.skip_c | self.plan.srv.skip_s > 0) as u64;
        counts.entropy_fail = ent.failures as u64;
        Outcome {
            calls: std::mem::take(&mut self.out),
            delivered: std::mem::take(&mut self.delivered),
            c2s: std::mem::take(&mut w.c2s),
            c2s_rel: w.c2s_rel,
            breaks: std::mem::take(&mut w.breaks),
            wmarks: std::mem::take(&mut w.wmarks),
            s2c: std::mem::take(&mut w.s2c),
            s2c_orig: std::mem::take(&mut w.s2c_orig),
            s2c_consumed: w.s2c_consumed,
            stream_ended: w.end_arrived,
            srv: std::mem::take(&mut w.srv.log),
            counts,
            failed: w.failed.clone(),
            failed_at: w.failed_at,
            entropy: drawn,
            app: std::mem::take(&mut self.app),
            entropy_failed: ent.failures > 0,
            mem_peak: alloc::peak(),
            leaked: alloc::live(),
            sim_us: w.now,
            hash: h.0,
            log: w.verbose.take().unwrap_or_default(),
        }
    }
}

impl World {
    /// session keys and the number of records the client emitted under them
    fn client_write_state(&self) -> Option<(Keys, u64)> {
        let k = self.srv.log.keys.clone()?;
        let d = &self.c2s;
        let (mut pos, mut prot, mut n) = (0, false, 0);
        while pos + 5 <= d.len() {
            n += prot as u64;
            prot |= d[pos] == 20;
            pos += 5 + u16::from_be_bytes([d[pos + 3], d[pos + 4]]) as usize;
        }
        Some((k, wire_seq(self.srv.p.skip_c, n)))
    }
    pub fn breaks_push(&mut self) {
        let n = self.c2s.len();
        if self.breaks.last() != Some(&n) {
            self.breaks.push(n);
        }
    }
    pub fn fail_total(&self) -> u64 {
        self.fail_reads + self.counts.wfaults + self.counts.ffaults
    }
}

fn make_socket(v6: bool) -> TcpStream {
    unsafe {
        let mut fd = -1;
        if v6 {
            fd = libc::socket(libc::AF_INET6, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        }
        if fd < 0 {
            fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        }
        if fd < 0 {
            eprintln!("simulator: no socket descriptor");
            std::process::exit(2);
        }
        TcpStream::from_raw_fd(fd)
    }
}

fn kind_name(e: &TlsError) -> String {
    format!("{:?}", e.kind)
}

fn tls_res(r: TlsResult<()>) -> Res {
    match r {
        Ok(()) => Res::Ok(0),
        Err(e) => {
            let on = alloc::set(false);
            let r = Res::Err("tls".into(), Some(kind_name(&e)));
            alloc::set(on);
            r
        }
    }
}

fn io_res(r: io::Result<usize>) -> Res {
    match r {
        Ok(n) => Res::Ok(n),
        Err(e) => {
            let on = alloc::set(false);
            let r = Res::Err(format!("{:?}", e.kind()), tls_kind(&e));
            alloc::set(on);
            r
        }
    }
}

/// the TLS error inside an io::Error, wherever it is wrapped
fn tls_kind(e: &io::Error) -> Option<String> {
    let inner = e.get_ref()?;
    if let Some(t) = inner.downcast_ref::<TlsError>() {
        return Some(kind_name(t));
    }
    if let Some(s) = inner.downcast_ref::<husk::util::SurugaError>() {
        if let Some(c) = &s.cause {
            if let Some(t) = c.downcast_ref::<TlsError>() {
                return Some(kind_name(t));
            }
        }
    }
    None
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    let mut s = Session::new(plan, verbose);
    if plan.hop == 0 {
        while s.step() {}
    } else {
        let s = &mut s;
        hopping(plan.hop as usize, move || s.step());
    }
    s.finish()
}

struct Carry<T>(T);
// the threads of `hopping` take strict turns, so nothing is ever used by two of them at once
unsafe impl<T> Send for Carry<T> {}

/// Calls f again and again, each time on the next of n threads, while it returns true.
fn hopping(n: usize, f: impl FnMut() -> bool) {
    let f: &mut dyn FnMut() -> bool = &mut { f };
    std::thread::scope(|sc| {
        let (mut ch, mut hs) = (vec![], vec![]);
        let (back, done) = std::sync::mpsc::channel();
        for _ in 0..n {
            let (tx, rx) = std::sync::mpsc::channel::<Carry<&mut dyn FnMut() -> bool>>();
            let back = back.clone();
            ch.push(tx);
            let h = std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(sc, move || {
                    while let Ok(Carry(f)) = rx.recv() {
                        let more = f();
                        if back.send((more, Carry(f))).is_err() {
                            break;
                        }
                    }
                })
                .expect("thread");
            hs.push(h);
        }
        let mut f = Carry(f);
        for k in 0.. {
            ch[k % n].send(f).map_err(|_| ()).expect("simulated thread");
            let (more, g) = done.recv().expect("simulated thread");
            f = g;
            if !more {
                break;
            }
        }
        // what a thread keeps for itself goes with it, and has gone when it is joined
        drop(ch);
        for h in hs {
            h.join().expect("simulated thread")
        }
    })
}
