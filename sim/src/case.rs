//! Evaluates one case: runs its plans, applies the oracles and the relation between the plans.
use crate::judge::*;
use crate::model::*;
use crate::plan::*;
use crate::prng::H;
use crate::run::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct F {
    pub code: String,
    pub detail: String,
    pub plan: usize,
}

#[derive(Clone, Default)]
pub struct CaseOut {
    pub findings: Vec<F>,
    pub runs: u64,
    pub sim_us: u64,
    pub counts: Counts,
    pub hash: u64,
    pub nontrivial: bool,
    pub sits: Vec<String>,
    pub switches: u64,
    pub api_calls: u64,
    pub log: Vec<String>,
}

fn faulted(c: &Counts) -> bool {
    c.short_reads + c.short_writes + c.eintr + c.rfaults + c.wfaults + c.ffaults + c.timeouts + c.backpressure + c.held + c.atk + c.atk_c + c.delays + c.entropy_fail > 0
}

struct Ctx<'a> {
    prop: &'a str,
    out: CaseOut,
    verbose: bool,
}

impl Ctx<'_> {
    fn note(&mut self, o: &Outcome, p: &Plan) {
        self.out.runs += 1;
        self.out.sim_us += o.sim_us;
        self.out.counts.add(&o.counts);
        self.out.api_calls += o.calls.len() as u64;
        let mut h = H(self.out.hash);
        h.add(o.hash);
        self.out.hash = h.0;
        if o.s2c_consumed > 0 && (faulted(&o.counts) || !honest(p, o) || (o.connected() && o.calls.len() > 1)) || o.entropy_failed {
            self.out.nontrivial = true;
        }
    }
    fn add(&mut self, code: &str, detail: String, plan: usize) {
        if !self.out.findings.iter().any(|f| f.code == code) {
            self.out.findings.push(F { code: code.into(), detail, plan });
        }
    }
    fn judge(&mut self, p: &Plan, o: &Outcome, idx: usize, also: &[&str]) {
        let j = judge(p, o);
        for f in &j.findings {
            if f.props.contains(&self.prop) || also.contains(&f.code) {
                self.add(f.code, f.detail.clone(), idx);
            }
        }
        self.out.sits.push(situation(p, o, &j));
        if self.verbose {
            self.out.log.push(format!("---- plan {} ----", idx));
            self.out.log.extend(o.log.iter().cloned());
            self.out.log.push(format!("model: handshake {:?}{}", j.hs.verdict, if j.hs.maybe { " (either way)" } else { "" }));
            if let Some(r) = &j.reads {
                self.out.log.push(format!("model: {} bytes readable, then {:?}", r.data.len(), r.term));
            }
            self.out.log.push(format!("alerts sent (position, protected, level, description): {:?}", j.c2s.alerts));
            self.out.log.push(format!("server: objection {:?}, events {:?}", o.srv.bad, o.srv.ev.iter().take(40).collect::<Vec<_>>()));
            for f in &j.findings {
                self.out.log.push(format!("finding {} {:?}: {}", f.code, f.props, f.detail));
            }
        }
    }
    fn each(&mut self, p: &Plan, idx: usize, also: &[&str]) -> Outcome {
        let o = run(p, self.verbose);
        self.note(&o, p);
        self.judge(p, &o, idx, also);
        o
    }
}

/// coarse class of what happened, for the coverage table
fn situation(p: &Plan, o: &Outcome, j: &Judged) -> String {
    let v = match &j.hs.verdict {
        Verdict::Done(_) => "handshake-right".to_string(),
        Verdict::Reject { why, .. } => format!("refuse-{:?}", why),
        Verdict::Need => "handshake-cut".to_string(),
    };
    let c = match o.calls.first().map(|c| &c.res) {
        Some(Res::Ok(_)) => "connected".to_string(),
        Some(Res::Err(_, Some(k))) => k.clone(),
        Some(Res::Err(k, None)) => k.clone(),
        Some(Res::Panic(_)) => "panic".to_string(),
        None => "-".into(),
    };
    let t = match j.reads.as_ref().map(|r| &r.term) {
        None => "-".to_string(),
        Some(Term::Open) => "open".into(),
        Some(Term::Eof) => "closed".into(),
        Some(Term::Trunc) => "cut".into(),
        Some(Term::Error { why, .. }) => format!("bad-{:?}", why),
    };
    let mut ops: Vec<&str> = vec![];
    for k in &o.calls[1.min(o.calls.len())..] {
        let s = match (&k.call, &k.res) {
            (Call::Read(_), Res::Ok(0)) => "r0",
            (Call::Read(_), Res::Ok(_)) => "r",
            (Call::Read(_), _) => "r!",
            (Call::Write(_) | Call::WriteAll(_), Res::Ok(_)) => "w",
            (Call::Write(_) | Call::WriteAll(_), _) => "w!",
            (Call::Flush, Res::Ok(_)) => "f",
            (Call::Flush, _) => "f!",
            (Call::Close, Res::Ok(_)) => "c",
            (Call::Close, _) => "c!",
            _ => "?",
        };
        if !ops.contains(&s) {
            ops.push(s)
        }
    }
    let k = &o.counts;
    let mut fl = String::new();
    for (n, ch) in [(k.short_reads, 's'), (k.short_writes, 'w'), (k.eintr, 'i'), (k.rfaults, 'R'), (k.wfaults, 'W'), (k.ffaults, 'F'), (k.timeouts, 'T'), (k.backpressure, 'b'), (k.held, 'h'), (k.atk, 'A'), (k.atk_c, 'B'), (k.eof, 'E'), (k.delays, 'd'), (k.entropy_fail, 'X')] {
        if n > 0 {
            fl.push(ch)
        }
    }
    if p.net.tcp {
        fl.push('t')
    }
    format!("{} {} {} [{}] {}", v, c, t, ops.join(""), fl)
}

fn same_calls(a: &Outcome, b: &Outcome) -> Option<String> {
    for (i, (x, y)) in a.calls.iter().zip(&b.calls).enumerate() {
        if x.call != y.call || x.res != y.res {
            return Some(format!("call {}: {:?} -> {:?} in one, {:?} -> {:?} in the other", i, x.call, x.res, y.call, y.res));
        }
    }
    if a.calls.len() != b.calls.len() {
        return Some(format!("{} calls in one, {} in the other", a.calls.len(), b.calls.len()));
    }
    if a.delivered != b.delivered {
        return Some(format!("delivered data differs ({} and {} bytes)", a.delivered.len(), b.delivered.len()));
    }
    if a.c2s != b.c2s {
        let i = a.c2s.iter().zip(&b.c2s).position(|(x, y)| x != y).unwrap_or(a.c2s.len().min(b.c2s.len()));
        return Some(format!("emitted bytes differ from {} on ({} and {} bytes)", i, a.c2s.len(), b.c2s.len()));
    }
    None
}

fn prefix_related(a: &[u8], b: &[u8]) -> bool {
    let n = a.len().min(b.len());
    a[..n] == b[..n]
}

fn faultless(n: &mut Net) {
    n.rfault.clear();
    n.wfault.clear();
    n.ffault.clear();
    n.rtimeout = 0;
    n.dup_fail = false;
    n.opt_fail = 0;
    n.hold = false;
    n.hold_cap = 0;
}

/// random and key share of the client, if it got that far
fn shares(o: &Outcome) -> (Vec<u8>, Vec<u8>) {
    let c = &o.c2s;
    let random = if c.len() > 43 { c[11..43].to_vec() } else { vec![] };
    (random, o.srv.cke_point.clone())
}

pub fn eval(case: &Case, verbose: bool) -> CaseOut {
    for p in &case.pre {
        let _ = run(p, false);
    }
    let mut c = Ctx { prop: &case.prop, out: CaseOut::default(), verbose };
    match &case.rel {
        Rel::Each => {
            for (i, p) in case.plans.iter().enumerate() {
                c.each(p, i, &[]);
            }
        }
        Rel::SameOutcome => {
            if case.plans.len() < 2 {
                return c.out;
            }
            let mut p = case.plans[0].clone();
            faultless(&mut p.net);
            p.entropy.fail_at = None;
            let mut q = p.clone();
            q.net = case.plans[1].net.clone();
            faultless(&mut q.net);
            let a = c.each(&p, 0, &[]);
            let b = c.each(&q, 1, &[]);
            if prefix_related(&a.s2c, &b.s2c) || honest(&p, &a) {
                if let Some(d) = same_calls(&a, &b) {
                    c.add("schedule-dependent", format!("two benign transport schedules give different outcomes: {}", d), 1);
                }
            }
        }
        Rel::EntropyMatters => {
            if let Some(p) = case.plans.first() {
                entropy_matters(&mut c, p)
            }
        }
        Rel::EntropySpread => entropy_spread(&mut c, &case.plans),
        Rel::Interleave { threads, migrate, sched } => {
            let alone: Vec<Outcome> = case.plans.iter().enumerate().map(|(i, p)| c.each(p, i, &[])).collect();
            let (together, switches) = if *threads { on_threads(&case.plans, sched, verbose) } else { call_by_call(&case.plans, sched, *migrate, verbose) };
            c.out.switches = switches;
            for (i, (a, b)) in alone.iter().zip(&together).enumerate() {
                c.note(b, &case.plans[i]);
                if verbose {
                    c.out.log.push(format!("---- interleaved, connection {} ----", i));
                    c.out.log.extend(b.log.iter().cloned());
                }
                if let Some(d) = same_calls(a, b) {
                    c.add("not-isolated", format!("connection {} behaves differently next to others: {}", i, d), i);
                }
            }
        }
        Rel::Release { steady } => {
            if let Some(p) = case.plans.first() {
                released(&mut c, p, *steady)
            }
        }
        Rel::Splice { rec, at, replace } => {
            if case.plans.len() < 2 {
                return c.out;
            }
            let a = run(&case.plans[0], false);
            c.note(&a, &case.plans[0]);
            let mut p = case.plans[1].clone();
            if !a.srv.recs.is_empty() {
                let r = a.srv.recs[*rec as usize % a.srv.recs.len()];
                if let Some(b) = a.s2c_orig.get(r.0..r.1) {
                    p.atk.push(RecEdit { at: *at, op: RecOp::InjectRaw(Hex(b.to_vec())) });
                    if *replace {
                        p.atk.push(RecEdit { at: *at, op: RecOp::Drop });
                    }
                }
            }
            let also: &[&str] = if case.prop == "C19" { &["wrong-data", "wrong-accept", "transcript"] } else { &[] };
            c.each(&p, 1, also);
        }
    }
    c.out
}

/// open descriptors and threads of this process
fn held() -> (usize, usize) {
    let n = |d: &str| std::fs::read_dir(d).map(|d| d.count()).unwrap_or(0);
    (n("/proc/self/fd"), n("/proc/self/task"))
}

fn released(c: &mut Ctx, p: &Plan, steady: bool) {
    let mut h0 = held();
    let o = c.each(p, 0, &[]);
    if o.calls.iter().any(|c| c.spin || matches!(c.res, Res::Panic(_))) {
        return;
    }
    if steady && o.connected() {
        let v: Vec<i64> = o.calls[1..].iter().map(|c| c.live).collect();
        let n = v.len() / 4;
        let (a, b) = (v[n..2 * n].iter().max().copied().unwrap_or(0), v[3 * n..4 * n].iter().max().copied().unwrap_or(0));
        if n >= 16 && b > a + (24 << 10) && 4 * b > 5 * a {
            c.add("memory-grows", format!("between its calls the client holds {} bytes after {} of them and {} after {}, although they are all alike", a, 2 * n, b, 4 * n), 0);
        }
    }
    // what only the first connection of a process leaves behind does not matter
    let (mut memory, mut fds, mut threads) = (true, true, true);
    let mut last = (0, 0, 0);
    for k in 0..4 {
        if k > 0 && !memory && !fds && !threads {
            return;
        }
        let o = if k == 0 { o.clone() } else { run(p, false) };
        if k > 0 {
            c.note(&o, p);
        }
        let mut h = held();
        for _ in 0..100 {
            // a thread that was told to end may take a moment
            if h.1 <= h0.1 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
            h = held();
        }
        if k > 0 {
            memory &= o.leaked > 0;
            fds &= h.0 > h0.0;
            threads &= h.1 > h0.1;
            last = (o.leaked, h.0 as i64 - h0.0 as i64, h.1 as i64 - h0.1 as i64);
        }
        h0 = h;
        if steady && k == 1 && !memory && !fds && !threads {
            return;
        }
    }
    let what = match o.calls.first().map(|c| &c.res) {
        Some(Res::Ok(_)) => "that was dropped",
        _ => "that was not made",
    };
    if memory {
        c.add("memory-kept", format!("{} bytes are still held for each connection {}", last.0, what), 0);
    }
    if fds {
        c.add("descriptors-kept", format!("{} descriptors are still open for each connection {}", last.1, what), 0);
    }
    if threads {
        c.add("threads-kept", format!("{} threads go on for each connection {}", last.2, what), 0);
    }
}

fn entropy_matters(c: &mut Ctx, p: &Plan) {
    let o = c.each(p, 0, &[]);
    if !o.connected() || !honest(p, &o) {
        return;
    }
    let (r0, k0) = shares(&o);
    let n = o.entropy.len();
    if n < 60 {
        c.add("entropy-weak", format!("only {} bytes of entropy were consumed for a connection", n), 0);
        return;
    }
    let mut r_infl = 0u32;
    let mut k_infl = 0u32;
    let mut r_bits = vec![0u8; 32];
    // rejected candidates and surplus draws have no influence; a full-strength connection needs this much
    let mut dead = vec![];
    for bit in 0..(n as u32 * 8).min(2048) {
        let mut q = p.clone();
        q.entropy.flip = vec![bit];
        q.ops.clear();
        let o = run(&q, false);
        c.note(&o, &q);
        let (r, k) = shares(&o);
        let rd = r != r0;
        let kd = k != k0;
        if rd {
            r_infl += 1;
            for (i, (a, b)) in r.iter().zip(&r0).enumerate() {
                r_bits[i] |= a ^ b;
            }
        }
        if kd {
            k_infl += 1
        }
        if !rd && !kd {
            dead.push(bit)
        }
    }
    let covered: u32 = r_bits.iter().map(|b| b.count_ones()).sum();
    if r_infl < 224 || covered < 224 {
        c.add("entropy-weak", format!("only {} bits of entropy influence the client random ({} of its bits vary)", r_infl, covered), 0);
    }
    if k_infl < 250 {
        c.add("entropy-weak", format!("only {} bits of entropy influence the key share", k_infl), 0);
    }
    if !dead.is_empty() && n <= 64 {
        c.add("entropy-weak", format!("{} consumed bits of entropy have no influence, the first is {}", dead.len(), dead[0]), 0);
    }
}

fn entropy_spread(c: &mut Ctx, plans: &[Plan]) {
    let mut rs: Vec<Vec<u8>> = vec![];
    let mut ks: Vec<Vec<u8>> = vec![];
    let mut seen: Vec<&Entropy> = vec![];
    for (i, p) in plans.iter().enumerate() {
        // seeds differ, and so do the stretches that are fixed, if any
        if seen.iter().any(|e| e.seed == p.entropy.seed || (!e.set.is_empty() && e.set == p.entropy.set)) || !p.entropy.flip.is_empty() || !honest_plan(p) {
            continue;
        }
        seen.push(&p.entropy);
        let o = c.each(p, i, &[]);
        if !o.connected() {
            continue;
        }
        let (r, k) = shares(&o);
        if rs.contains(&r) {
            c.add("entropy-repeat", "two connections with different entropy sent the same client random".into(), i);
        }
        if ks.contains(&k) {
            c.add("entropy-repeat", "two connections with different entropy sent the same key share".into(), i);
        }
        rs.push(r);
        ks.push(k);
    }
    if rs.len() < 40 || seen.iter().any(|e| !e.set.is_empty()) {
        return;
    }
    let mut stuck = 0;
    for bit in 32..256 {
        let ones = rs.iter().filter(|r| r.len() == 32 && r[bit / 8] >> (bit % 8) & 1 == 1).count();
        if ones == 0 || ones == rs.len() {
            stuck += 1
        }
    }
    if stuck > 0 {
        c.add("entropy-weak", format!("{} bits of the client random are the same in {} connections", stuck, rs.len()), 0);
    }
}

/// a connection may move between threads between its calls; the simulation's own parts only do so while nothing else
/// looks at them
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}

fn elsewhere(s: Session) -> (Session, bool) {
    let m = Moved(s);
    let Moved(r) = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(sc, move || {
                let mut m = m;
                let m = &mut m;
                let more = m.0.step();
                Moved((std::mem::replace(&mut m.0, Session::new(&Plan::default(), false)), more))
            })
            .expect("thread")
            .join()
            .expect("simulated thread")
    });
    r
}

fn call_by_call(plans: &[Plan], sched: &[u8], migrate: bool, verbose: bool) -> (Vec<Outcome>, u64) {
    let mut s: Vec<Option<Session>> = plans.iter().map(|p| Some(Session::new(p, verbose))).collect();
    let mut done: Vec<Option<Outcome>> = plans.iter().map(|_| None).collect();
    let mut i = 0usize;
    let mut last = usize::MAX;
    let mut switches = 0;
    loop {
        let alive: Vec<usize> = (0..s.len()).filter(|k| s[*k].is_some()).collect();
        if alive.is_empty() {
            break;
        }
        let k = if sched.is_empty() { i } else { sched[i % sched.len()] as usize };
        let k = alive[k % alive.len()];
        if k != last {
            switches += 1
        }
        last = k;
        i += 1;
        let more = match s[k].take() {
            Some(x) if migrate => {
                let (x, more) = elsewhere(x);
                s[k] = Some(x);
                more
            }
            Some(mut x) => {
                let more = x.step();
                s[k] = Some(x);
                more
            }
            None => false,
        };
        if !more {
            done[k] = s[k].take().map(|x| x.finish());
        }
    }
    (done.into_iter().flatten().collect(), switches)
}

fn on_threads(plans: &[Plan], sched: &[u8], verbose: bool) -> (Vec<Outcome>, u64) {
    struct Done<'a>(&'a Baton, usize);
    impl Drop for Done<'_> {
        fn drop(&mut self) {
            self.0.done(self.1)
        }
    }
    let baton = Arc::new(Baton::new(plans.len(), sched.to_vec()));
    let out = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let b = baton.clone();
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        b.wait(i);
                        let _d = Done(&b, i);
                        let mut s = Session::new(p, verbose);
                        s.world.borrow_mut().baton = Some((b.clone(), i));
                        while s.step() {
                            b.yield_now(i);
                        }
                        s.finish()
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("simulated thread")).collect::<Vec<_>>()
    });
    (out, baton.switches())
}
