//! Minimisation: the failing case as JSON, made smaller while the same violation stays, each try in a fresh process.
use crate::check::*;
use crate::plan::*;
use serde_json::Value;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

fn size(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(size).sum::<usize>(),
        Value::Object(o) => 1 + o.values().map(size).sum::<usize>(),
        Value::Number(n) => 1 + (64 - n.as_u64().unwrap_or(0).leading_zeros() as usize) / 4,
        Value::String(s) => 1 + s.len() / 2,
        _ => 1,
    }
}

/// one simplification somewhere in the value; kept as the place and the edit, because there can be very many
struct Edit {
    path: Vec<Step>,
    what: What,
    gain: usize,
}

#[derive(Clone)]
enum Step {
    Key(String),
    Item(usize),
}

enum What {
    Drain(usize, usize),
    Unset(String),
    Set(Value),
}

impl Edit {
    fn apply(&self, v: &Value) -> Value {
        let mut out = v.clone();
        let mut at = &mut out;
        for s in &self.path {
            at = match s {
                Step::Key(k) => &mut at[k.as_str()],
                Step::Item(i) => &mut at[*i],
            };
        }
        match (&self.what, at) {
            (What::Drain(i, j), Value::Array(a)) => {
                a.drain(*i..*j);
            }
            (What::Unset(k), Value::Object(o)) => {
                // falls back to the field's default
                o.remove(k);
            }
            (What::Set(x), at) => *at = x.clone(),
            _ => {}
        }
        out
    }
}

/// all one-step simplifications
fn edits(v: &Value, path: &mut Vec<Step>, out: &mut Vec<Edit>) {
    match v {
        Value::Array(a) => {
            let sizes: Vec<usize> = a.iter().map(size).collect();
            let mut chunk = a.len();
            while chunk >= 1 {
                let mut i = 0;
                while i < a.len() {
                    let j = (i + chunk).min(a.len());
                    out.push(Edit { path: path.clone(), what: What::Drain(i, j), gain: sizes[i..j].iter().sum() });
                    i += chunk;
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            for (i, x) in a.iter().enumerate() {
                path.push(Step::Item(i));
                edits(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                out.push(Edit { path: path.clone(), what: What::Unset(k.clone()), gain: size(x) });
            }
            for (k, x) in o {
                path.push(Step::Key(k.clone()));
                edits(x, path, out);
                path.pop();
            }
        }
        _ => {
            let s0 = size(v);
            for x in smaller(v) {
                let s = size(&x);
                if s < s0 {
                    out.push(Edit { path: path.clone(), what: What::Set(x), gain: s0 - s });
                }
            }
        }
    }
}

fn smaller(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Number(n) => {
            if let Some(n) = n.as_u64() {
                let mut c = vec![0, 1, n / 2, n.saturating_sub(1)];
                if n > 100 {
                    c.push(n / 8);
                    c.push(10);
                }
                c.retain(|x| *x < n);
                c.dedup();
                out.extend(c.into_iter().map(Value::from));
            }
        }
        Value::Bool(true) => out.push(Value::Bool(false)),
        Value::String(s) if s.len() >= 2 && s.bytes().all(|b| b.is_ascii_hexdigit()) => {
            let h = s.len() / 4 * 2;
            out.push(Value::from(""));
            if h > 0 && h < s.len() {
                out.push(Value::from(&s[..h]));
            }
            if s.len() > 2 {
                out.push(Value::from(&s[..s.len() - 2]));
            }
            let z = "0".repeat(s.len());
            if z != *s {
                out.push(Value::from(z));
            }
        }
        _ => {}
    }
    out
}

pub fn shrink(r: &Replay, code: &str, limit: Duration) -> Replay {
    let t0 = Instant::now();
    let mut best = r.clone();
    let mut cur = match serde_json::to_value(&r.case) {
        Ok(v) => v,
        Err(_) => return best,
    };
    let cpu = if code == "hang" { 10.0 } else { 20.0 };
    // a hang costs its whole time-out on every try
    let limit = if code == "hang" { limit } else { limit.min(Duration::from_secs(40)) };
    'again: loop {
        let mut es = vec![];
        edits(&cur, &mut vec![], &mut es);
        es.retain(|e| e.gain > 0);
        es.sort_by_key(|e| usize::MAX - e.gain);
        // most promising first, in parallel batches
        let n = 8;
        for batch in es.chunks(n) {
            if t0.elapsed() > limit {
                break 'again;
            }
            let batch: Vec<Value> = batch.iter().map(|e| e.apply(&cur)).collect();
            let hit = AtomicUsize::new(usize::MAX);
            std::thread::scope(|sc| {
                for (k, v) in batch.iter().enumerate() {
                    let best = &best;
                    let hit = &hit;
                    sc.spawn(move || {
                        let case: Case = match serde_json::from_value(v.clone()) {
                            Ok(c) => c,
                            Err(_) => return,
                        };
                        if case.prop != best.property || case.plans.is_empty() {
                            return;
                        }
                        let cand = Replay { case, ..best.clone() };
                        if let Some(x) = fresh(&cand, &format!("shrink{}", k), cpu) {
                            if let Some(f) = x.findings.iter().find(|f| f.code == code) {
                                if best.property == "C19" && !isolation_named(&cand, f, k) {
                                    return;
                                }
                                hit.fetch_min(k, Ordering::SeqCst);
                            }
                        }
                    });
                }
            });
            let k = hit.load(Ordering::SeqCst);
            if k != usize::MAX {
                if let Ok(case) = serde_json::from_value::<Case>(batch[k].clone()) {
                    best.case = case;
                    cur = batch[k].clone();
                    continue 'again;
                }
            }
        }
        break;
    }
    // the text of the minimised failure
    if let Some(v) = fresh(&best, "final", 60.0) {
        if let Some(f) = v.findings.into_iter().find(|f| f.code == code) {
            best.detail = f.detail;
        }
    }
    best
}

fn isolation_named(r: &Replay, f: &crate::case::F, _k: usize) -> bool {
    if ["not-isolated", "not-repeatable"].contains(&f.code.as_str()) {
        return true;
    }
    matches!(r.case.rel, Rel::Splice { .. }) || !r.case.pre.is_empty()
}
