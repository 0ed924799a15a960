//! One check: seeded search by worker processes, confirmation in a fresh process, minimisation, evidence.
use crate::alloc;
use crate::case::*;
use crate::gen::*;
use crate::plan::*;
use crate::shrink;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;
/// properties for which a process abort or an endless loop contradicts the statement
const CRASH: &[&str] = &["C01", "C05", "C06", "C07", "C08", "C09", "C11", "C13", "C15", "C16", "C17", "C18", "C19"];

/// Re-running a whole worker: the last resort for failures that need everything that came before.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct History {
    pub seed: u64,
    pub thorough: bool,
    pub from: u64,
    pub stride: u64,
    pub upto: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Replay {
    pub property: String,
    pub code: String,
    pub detail: String,
    #[serde(default)]
    pub found: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub history: Option<History>,
    pub case: Case,
}

fn root() -> PathBuf {
    match std::env::var("HUSK_SIM_ROOT") {
        Ok(r) => PathBuf::from(r),
        _ => PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

/// runs f on a thread with the standard library's default stack size
fn on_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).expect("thread").join().expect("worker thread"))
}

pub fn worker(prop: &str, seed: u64, thorough: bool, from: u64, stride: u64, end: u64, deadline_s: u64) -> i32 {
    limits();
    on_stack(|| worker_body(prop, seed, thorough, from, stride, end, deadline_s));
    0
}

fn worker_body(prop: &str, seed: u64, thorough: bool, from: u64, stride: u64, end: u64, deadline_s: u64) {
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut counts = crate::world::Counts::default();
    let (mut cases, mut runs, mut sim, mut nontrivial, mut switches, mut calls) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut sits: BTreeMap<String, u64> = BTreeMap::new();
    let mut found = 0;
    let mut repeats = 0u64;
    let mut i = from;
    while i < end && t0.elapsed().as_secs() < deadline_s {
        let _ = writeln!(out, "C {}", i);
        let _ = out.flush();
        let case = gen(prop, seed, i, thorough);
        let mut r = eval(&case, false);
        if (i / stride) % 64 == 0 {
            // the same case again: one seed is one execution
            repeats += 1;
            let again = eval(&case, false);
            if again.hash != r.hash {
                r.findings.push(F { code: "not-repeatable".into(), detail: "the same plan executed twice in one process behaved differently".into(), plan: 0 });
                if prop != "C19" && prop != "C14" {
                    r.findings.pop();
                    eprintln!("note: {} case {} is not repeatable within one process", prop, i);
                }
            }
        }
        cases += 1;
        runs += r.runs;
        sim += r.sim_us;
        switches += r.switches;
        calls += r.api_calls;
        counts.add(&r.counts);
        if r.nontrivial {
            nontrivial += 1;
            hashes.insert(r.hash);
        }
        for s in r.sits {
            *sits.entry(s).or_default() += 1;
        }
        for f in &r.findings {
            if found < 200 {
                let _ = writeln!(out, "F {}", json!({"i": i, "code": f.code, "detail": f.detail, "plan": f.plan}));
                found += 1;
            }
        }
        i += stride;
    }
    let mut hs: Vec<u64> = hashes.into_iter().collect();
    hs.sort_unstable();
    let c: BTreeMap<&str, u64> = counts.list().into_iter().collect();
    let _ = writeln!(out, "S {}", json!({"cases": cases, "runs": runs, "sim": sim, "nontrivial": nontrivial, "switches": switches, "calls": calls, "repeats": repeats, "counts": c, "hashes": hs, "sits": sits, "next": i}));
    let _ = out.flush();
}

fn load(path: &str) -> Result<Replay, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    if let Ok(r) = serde_json::from_str::<Replay>(&s) {
        return Ok(r);
    }
    let c: Case = serde_json::from_str(&s).map_err(|e| format!("{}: {}", path, e))?;
    Ok(Replay { property: c.prop.clone(), case: c, ..Default::default() })
}

fn eval_replay(r: &Replay, verbose: bool) -> CaseOut {
    let mut again = false;
    if let Some(h) = &r.history {
        let mut i = h.from;
        while i < h.upto {
            let c = gen(&r.property, h.seed, i, h.thorough);
            let _ = eval(&c, false);
            if (i / h.stride) % 64 == 0 {
                let _ = eval(&c, false);
            }
            i += h.stride;
        }
    }
    if r.code == "not-repeatable" {
        again = true;
    }
    let mut o = eval(&r.case, verbose);
    if again {
        let mut c = r.case.clone();
        c.pre.clear();
        let p = eval(&c, false);
        if p.hash != o.hash {
            o.findings.push(F { code: "not-repeatable".into(), detail: "the same plan executed twice in one process behaved differently".into(), plan: 0 });
        }
    }
    o
}

/// machine-readable evaluation of one replay file (used for confirmation and minimisation)
pub fn eval_file(path: &str) -> i32 {
    limits();
    let r = match load(path) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let o = on_stack(|| eval_replay(&r, false));
    println!("R {}", json!({"findings": o.findings, "hash": o.hash}));
    0
}

pub struct Verdict1 {
    pub findings: Vec<F>,
    pub hash: u64,
}

/// evaluates in a fresh process; crash and hang become findings
pub fn fresh(r: &Replay, name: &str, cpu_s: f64) -> Option<Verdict1> {
    let dir = scratch();
    let path = dir.join(format!("{}.json", name));
    std::fs::write(&path, serde_json::to_string(r).ok()?).ok()?;
    let mut ch = Command::new(std::env::current_exe().ok()?)
        .arg("eval")
        .arg(&path)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .ok()?;
    let mut so = ch.stdout.take()?;
    let mut se = ch.stderr.take()?;
    let t1 = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    let mut hang = None;
    let mut tick = t0;
    let mut still = (0.0, 0u32);
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {
                if tick.elapsed().as_millis() > 250 {
                    tick = Instant::now();
                    let cpu = cpu_of(ch.id()).unwrap_or(0.0);
                    still = if cpu != still.0 || !waiting(ch.id()) { (cpu, 0) } else { (cpu, still.1 + 1) };
                }
                let stuck = still.1 > STUCK;
                if stuck || cpu_of(ch.id()).unwrap_or(0.0) > cpu_s || t0.elapsed().as_secs_f64() > cpu_s * 6.0 + 10.0 {
                    hang = Some(if stuck { "every thread waits for ever".into() } else { format!("no result after {} s of processor time", cpu_s) });
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 100 { 1 } else { 10 }));
            }
            Err(_) => break None,
        }
    };
    let out = t1.join().unwrap_or_default();
    let err = t2.join().unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    if let Some(detail) = hang {
        return Some(Verdict1 { findings: vec![F { code: "hang".into(), detail, plan: 0 }], hash: 0 });
    }
    for l in out.lines() {
        if let Some(j) = l.strip_prefix("R ") {
            let v: Value = serde_json::from_str(j).ok()?;
            return Some(Verdict1 { findings: serde_json::from_value(v["findings"].clone()).ok()?, hash: v["hash"].as_u64().unwrap_or(0) });
        }
    }
    match status {
        Some(s) if s.code() != Some(2) => Some(Verdict1 { findings: vec![abort_finding(&s, &err)], hash: 0 }),
        _ => {
            eprintln!("harness: evaluation failed: {}", err);
            None
        }
    }
}

fn abort_finding(s: &std::process::ExitStatus, err: &str) -> F {
    let last: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).collect();
    F { code: "abort".into(), detail: format!("the process died ({}): {}", s, last.first().unwrap_or(&"")), plan: 0 }
}

pub fn scratch() -> PathBuf {
    let d = root().join("sim/target/scratch").join(std::process::id().to_string());
    let _ = std::fs::create_dir_all(&d);
    d
}

/// whether every thread of the process waits for something (a simulation never waits: it would wait for ever)
fn waiting(pid: u32) -> bool {
    let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) else { return false };
    let mut any = false;
    for t in d.flatten() {
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { return false };
        if s.rsplit(')').next().and_then(|x| x.split_whitespace().next()) != Some("S") {
            return false;
        }
        any = true;
    }
    any
}

/// after so many looks (250 ms apart at least) at nothing but waiting nothing will ever happen
const STUCK: u32 = 60;

fn cpu_of(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(t / 100.0)
}

enum Msg {
    Line(usize, String),
    Closed(usize),
}

struct W {
    child: Child,
    cur: u64,
    cur_since: Instant,
    cur_cpu: f64,
    still: (f64, u32),
    open: bool,
    summary: bool,
}

#[derive(Clone, Debug)]
struct Hit {
    i: u64,
    from: u64,
    code: String,
    detail: String,
}

fn spawn(prop: &str, seed: u64, thorough: bool, from: u64, end: u64, deadline: u64, k: usize, tx: &mpsc::Sender<Msg>) -> W {
    let mut child = Command::new(std::env::current_exe().expect("exe"))
        .args(["worker", prop, &seed.to_string(), if thorough { "1" } else { "0" }, &from.to_string(), &WORKERS.to_string(), &end.to_string(), &deadline.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::from(std::fs::File::create(scratch().join(format!("w{}.err", k))).expect("scratch")))
        .spawn()
        .expect("worker process");
    let so = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in std::io::BufReader::new(so).lines() {
            match l {
                Ok(l) => {
                    if tx.send(Msg::Line(k, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::Closed(k));
    });
    W { child, cur: from, cur_since: Instant::now(), cur_cpu: 0.0, still: (0.0, 0), open: true, summary: false }
}

#[derive(Default)]
struct Totals {
    cases: u64,
    runs: u64,
    sim: u64,
    nontrivial: u64,
    switches: u64,
    calls: u64,
    repeats: u64,
    counts: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    sits: BTreeMap<String, u64>,
}

/// entries of KNOWN_FINDINGS.jsonl
#[derive(Deserialize, Clone, Debug, Default)]
#[serde(default)]
struct Known {
    property: String,
    code: String,
    /// the finding's text must contain this
    contains: String,
    /// replay file of the listed history
    replay: String,
    what: String,
}

fn known(prop: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(root().join("KNOWN_FINDINGS")).unwrap_or_default();
    s.lines().filter(|l| l.starts_with('{')).filter_map(|l| serde_json::from_str::<Known>(l).ok()).filter(|k| k.property == prop).collect()
}

fn is_known(k: &[Known], code: &str, detail: &str) -> bool {
    k.iter().any(|k| k.code == code && !k.contains.is_empty() && detail.contains(&k.contains))
}

pub fn check(prop: &str) -> i32 {
    if !IDS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let secs: u64 = std::env::var("HUSK_SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 150 });
    println!("husk-sim {} seed={} tier={}", prop, seed, if thorough { "thorough" } else { "quick" });
    let t0 = Instant::now();
    let known = known(prop);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop, k.what);
    }
    let mut hits: Vec<Hit> = vec![];
    let mut stored: Vec<(Replay, F)> = vec![];

    // executions that once failed, first
    let mut reg = 0;
    if let Ok(d) = std::fs::read_dir(root().join("cases")) {
        let mut v: Vec<_> = d.flatten().map(|e| e.path()).filter(|p| p.file_name().map_or(false, |n| n.to_string_lossy().starts_with(&format!("{}-", prop)))).collect();
        v.sort();
        for p in v {
            let r = match load(&p.to_string_lossy()) {
                Ok(r) => r,
                Err(e) => {
                    eprintln!("{}", e);
                    return 2;
                }
            };
            reg += 1;
            match fresh(&r, "case", 60.0) {
                Some(v) => {
                    for f in v.findings {
                        if (f.code == "abort" || f.code == "hang") && !CRASH.contains(&prop) {
                            continue;
                        }
                        if !is_known(&known, &f.code, &f.detail) {
                            stored.push((Replay { found: format!("stored case {}", p.file_name().unwrap().to_string_lossy()), code: f.code.clone(), detail: f.detail.clone(), ..r.clone() }, f));
                        }
                    }
                }
                None => return 2,
            }
        }
    }

    let mut tot = Totals::default();
    let mut skipped = 0;
    if stored.is_empty() {
        let end = if thorough { u64::MAX / 2 } else { budget(prop, false) };
        let (tx, rx) = mpsc::channel();
        let mut ws: Vec<W> = (0..WORKERS).map(|k| spawn(prop, seed, thorough, k, end, secs, k as usize, &tx)).collect();
        let mut from: Vec<u64> = (0..WORKERS).collect();
        let mut stop_at: Option<Instant> = None;
        let mut tick = Instant::now();
        while ws.iter().any(|w| w.open) {
            match rx.recv_timeout(Duration::from_millis(200)) {
                Ok(Msg::Line(k, l)) => {
                    if let Some(i) = l.strip_prefix("C ") {
                        ws[k].cur = i.parse().unwrap_or(0);
                        ws[k].cur_since = Instant::now();
                        ws[k].cur_cpu = -1.0;
                    } else if let Some(j) = l.strip_prefix("F ") {
                        if let Ok(v) = serde_json::from_str::<Value>(j) {
                            let code = v["code"].as_str().unwrap_or("").to_string();
                            let detail = v["detail"].as_str().unwrap_or("").to_string();
                            if is_known(&known, &code, &detail) {
                                skipped += 1;
                            } else {
                                hits.push(Hit { i: v["i"].as_u64().unwrap_or(0), from: from[k], code, detail });
                                if stop_at.is_none() {
                                    stop_at = Some(Instant::now() + Duration::from_millis(1500));
                                }
                            }
                        }
                    } else if let Some(j) = l.strip_prefix("S ") {
                        ws[k].summary = true;
                        if let Ok(v) = serde_json::from_str::<Value>(j) {
                            let n = |f: &str| v[f].as_u64().unwrap_or(0);
                            tot.cases += n("cases");
                            tot.runs += n("runs");
                            tot.sim += n("sim");
                            tot.nontrivial += n("nontrivial");
                            tot.switches += n("switches");
                            tot.calls += n("calls");
                            tot.repeats += n("repeats");
                            for (a, b) in v["counts"].as_object().into_iter().flatten() {
                                *tot.counts.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
                            }
                            for (a, b) in v["sits"].as_object().into_iter().flatten() {
                                *tot.sits.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
                            }
                            for h in v["hashes"].as_array().into_iter().flatten() {
                                tot.hashes.insert(h.as_u64().unwrap_or(0));
                            }
                        }
                    }
                }
                Ok(Msg::Closed(k)) => {
                    let st = ws[k].child.wait();
                    ws[k].open = false;
                    if !ws[k].summary && stop_at.is_none() {
                        // died in the middle of a case
                        let err = std::fs::read_to_string(scratch().join(format!("w{}.err", k))).unwrap_or_default();
                        let st = match st {
                            Ok(s) => s,
                            Err(_) => return 2,
                        };
                        if st.code() == Some(101) && err.contains("simulator panic") {
                            eprintln!("harness: worker failed at case {}: {}", ws[k].cur, err);
                            return 2;
                        }
                        let f = abort_finding(&st, &err);
                        let i = ws[k].cur;
                        if CRASH.contains(&prop) {
                            hits.push(Hit { i, from: from[k], code: f.code, detail: f.detail });
                            stop_at = Some(Instant::now() + Duration::from_millis(1500));
                        } else {
                            eprintln!("note: case {} ends the process ({}); not a matter of {}", i, f.detail, prop);
                            from[k] = i + WORKERS;
                            let left = secs.saturating_sub(t0.elapsed().as_secs());
                            ws[k] = spawn(prop, seed, thorough, i + WORKERS, end, left, k, &tx);
                        }
                    }
                }
                Err(mpsc::RecvTimeoutError::Timeout) => {}
                Err(_) => break,
            }
            if stop_at.map_or(false, |t| Instant::now() > t) {
                for w in ws.iter_mut() {
                    let _ = w.child.kill();
                }
            }
            if tick.elapsed().as_millis() > 1000 {
                tick = Instant::now();
                for k in 0..ws.len() {
                    if !ws[k].open {
                        continue;
                    }
                    let cpu = cpu_of(ws[k].child.id()).unwrap_or(0.0);
                    if ws[k].cur_cpu < 0.0 {
                        ws[k].cur_cpu = cpu;
                    }
                    ws[k].still = if cpu != ws[k].still.0 || !waiting(ws[k].child.id()) { (cpu, 0) } else { (cpu, ws[k].still.1 + 1) };
                    if cpu - ws[k].cur_cpu > 45.0 || ws[k].still.1 > STUCK / 2 || ws[k].cur_since.elapsed().as_secs() > 300 {
                        let i = ws[k].cur;
                        let _ = ws[k].child.kill();
                        ws[k].summary = true; // handled here
                        if CRASH.contains(&prop) {
                            hits.push(Hit { i, from: from[k], code: "hang".into(), detail: "no progress".into() });
                            if stop_at.is_none() {
                                stop_at = Some(Instant::now());
                            }
                        } else {
                            eprintln!("note: case {} does not end; not a matter of {}", i, prop);
                        }
                    }
                }
            }
        }
    }

    // confirmation in a fresh process, then minimisation
    let mut violation: Option<(Replay, F)> = stored.into_iter().next();
    let mut unconfirmed = 0;
    if violation.is_none() && !hits.is_empty() {
        hits.sort_by_key(|h| h.i);
        let mut tried: Vec<String> = vec![];
        let t1 = Instant::now();
        for h in &hits {
            if tried.iter().filter(|c| **c == h.code).count() >= 4 || t1.elapsed().as_secs() > 200 {
                continue;
            }
            tried.push(h.code.clone());
            if let Some(v) = confirm(prop, seed, thorough, h) {
                violation = Some(v);
                break;
            }
            unconfirmed += 1;
            eprintln!("note: case {} ({}: {}) does not show in a fresh process", h.i, h.code, h.detail);
        }
    }
    let mut line = None;
    if let Some((r, f)) = &violation {
        let small = if r.history.is_some() { r.clone() } else { shrink::shrink(r, &f.code, Duration::from_secs(if f.code == "hang" { 60 } else { 25 })) };
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", prop, f.code));
        if std::fs::write(&path, serde_json::to_string_pretty(&small).unwrap()).is_err() {
            eprintln!("cannot write {}", path.display());
            return 2;
        }
        println!("{}", small.detail);
        line = Some(format!("VIOLATION property={} replay={}", prop, path.display()));
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(prop, seed, thorough, &tot, wall, line.is_some(), reg, skipped);
    let _ = std::fs::remove_dir_all(scratch());
    println!("{} cases, {} simulated runs, {} distinct histories, {:.1} s", tot.cases, tot.runs, tot.hashes.len(), wall);
    if let Some(l) = line {
        println!("{}", l);
        return 1;
    }
    if unconfirmed > 0 {
        eprintln!("harness: {} observations could not be reproduced", unconfirmed);
        return 2;
    }
    0
}

fn confirm(prop: &str, seed: u64, thorough: bool, h: &Hit) -> Option<(Replay, F)> {
    let case = gen(prop, seed, h.i, thorough);
    let base = Replay {
        property: prop.into(),
        code: h.code.clone(),
        detail: h.detail.clone(),
        found: format!("seed {} case {}{}", seed, h.i, if thorough { " thorough" } else { "" }),
        history: None,
        case: case.clone(),
    };
    let want = |r: &Replay, name: &str| -> Option<F> { fresh(r, name, 60.0).and_then(|v| v.findings.into_iter().find(|f| f.code == h.code)) };
    let done = |r: Replay, f: F| Some((Replay { detail: f.detail.clone(), ..r }, f));
    if let Some(f) = want(&base, "confirm") {
        if prop != "C19" || isolation(&base, &f) {
            return done(base, f);
        }
        return None;
    }
    // with executions that came before it in the worker
    for k in [1u64, 4, 20, 80] {
        let mut r = base.clone();
        let mut pre = vec![];
        for b in (1..=k).rev() {
            if let Some(i) = h.i.checked_sub(b * WORKERS) {
                if i >= h.from {
                    pre.extend(gen(prop, seed, i, thorough).plans);
                }
            }
        }
        r.case.pre = pre;
        if let Some(f) = want(&r, "confirm") {
            return done(r, f);
        }
    }
    let mut r = base;
    r.history = Some(History { seed, thorough, from: h.from, stride: WORKERS, upto: h.i });
    if let Some(f) = want(&r, "confirm") {
        return done(r, f);
    }
    None
}

/// C19 is about the difference to running alone: what a connection does in a process of its own is not its matter
pub fn isolation(r: &Replay, f: &F) -> bool {
    if ["not-isolated", "not-repeatable"].contains(&f.code.as_str()) || matches!(r.case.rel, Rel::Splice { .. }) {
        return true;
    }
    let mut alone = r.clone();
    alone.case.pre.clear();
    alone.case.rel = Rel::Each;
    let plans = std::mem::take(&mut alone.case.plans);
    for p in plans {
        alone.case.plans = vec![p];
        if fresh(&alone, "alone", 60.0).map_or(true, |v| v.findings.iter().any(|x| x.code == f.code)) {
            return false;
        }
    }
    true
}

pub fn replay(path: &str) -> i32 {
    let r = match load(path) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    limits();
    let o = on_stack(|| eval_replay(&r, true));
    alloc::set(false);
    for l in &o.log {
        println!("{}", l);
    }
    println!("trace hash {:016x}", o.hash);
    let mut bad = false;
    for f in &o.findings {
        println!("{}: {} (plan {})", f.code, f.detail, f.plan);
        bad |= r.code.is_empty() || f.code == r.code;
    }
    if bad {
        println!("VIOLATION property={} replay={}", r.property, path);
        1
    } else {
        println!("no violation");
        0
    }
}

fn rule(prop: &str) -> String {
    format!(
        "case i of {} is gen({}, VERIF_SEED, i): an explicit plan (entropy, server, attacker, transport schedule and faults, application calls) or a group of related plans. \
         A case is non-trivial when server bytes reached the client and at least one transport event, fault or deviation actually fired or application calls ran after connecting; \
         distinct = different hash over every transport call's result, every API result, all bytes in both directions and the simulated clock",
        prop, prop
    )
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, seed: u64, thorough: bool, t: &Totals, wall: f64, violated: bool, reg: u64, skipped: u64) {
    let mut samples = vec![];
    let mut i = 0;
    while samples.len() < 3 && i < 40 {
        let c = gen(prop, seed, i * 7 + 1, thorough);
        if let Ok(s) = serde_json::to_value(&c) {
            if s.to_string().len() < 3000 {
                samples.push(s)
            }
        }
        i += 1;
    }
    let mut top: Vec<(&String, &u64)> = t.sits.iter().collect();
    top.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
    let top: BTreeMap<String, u64> = top.into_iter().take(40).map(|(a, b)| (a.clone(), *b)).collect();
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    for (k, n) in &t.sits {
        let w: Vec<&str> = k.split(' ').collect();
        *per.entry(format!("{} / {}", w[0], w.get(1).unwrap_or(&""))).or_default() += n;
    }
    let h = wall.max(0.001) / 3600.0;
    let v = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.hashes.len(),
            "rule": rule(prop),
            "samples": samples,
            "cases": t.cases,
            "nontrivial_cases": t.nontrivial,
            "stored_cases_replayed": reg,
            "api_calls": t.calls,
            "simulated_runs_per_hour": (t.runs as f64 / h) as u64,
            "seeds_per_hour": (t.cases as f64 / h) as u64,
            "simulated_seconds": t.sim as f64 / 1e6,
            "faults_and_events_fired": t.counts,
            "scheduler_switches_between_connections": t.switches,
            "distinct_situations": t.sits.len(),
            "situation_measure": "model verdict on the handshake, result of connecting, model verdict on the application stream, kinds of API results, kinds of transport events that fired",
            "most_frequent_situations": top,
            "handshake_verdict_by_result": per,
            "cases_executed_twice_and_compared": t.repeats,
            "known_findings_seen": skipped,
            "real_code": ["all of husk built from /repo (debug assertions and overflow checks on)", "std Read/Write default methods, TcpStream on the TCP runs"],
            "stubs": ["transport (in-memory R/W, or the recv/send/readv/writev/shutdown calls behind TcpStream)", "entropy (getrandom)", "clock", "server (independent implementation in refc and server.rs)", "network attacker"],
        },
        "assumptions": ["the reference crypto, server and model in /verif/sim are right where they agree with husk and with each other", "sampling: a clean run is evidence, not proof"],
        "wall_s": wall,
        "violations": if violated { 1 } else { 0 },
    });
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if std::fs::write(d.join(format!("{}.json", prop)), serde_json::to_string_pretty(&v).unwrap()).is_err() {
        eprintln!("cannot write evidence");
    }
}
