//! Oracles over one recorded execution. Every finding carries the properties it contradicts.
use crate::model::*;
use crate::plan::*;
use crate::run::*;
use crate::server::*;

#[derive(Clone, Debug)]
pub struct Finding {
    pub code: &'static str,
    pub props: &'static [&'static str],
    pub detail: String,
}

pub struct Judged {
    pub findings: Vec<Finding>,
    pub hs: Hs,
    pub c2s: C2s,
    pub reads: Option<Reads>,
}

/// the server follows the standard and nobody interferes
pub fn honest(p: &Plan, o: &Outcome) -> bool {
    honest_plan(p) && knows_key(p, o)
}

fn knows_key(p: &Plan, o: &Outcome) -> bool {
    !matches!(p.srv.key, KeySpec::Raw(_)) || o.srv.keys.is_some() || o.srv.cke_point.is_empty()
}

pub fn honest_plan(p: &Plan) -> bool {
    let s = &p.srv;
    let ext_ok = match &s.ext {
        Ext::None | Ext::Empty => true,
        Ext::PointFormats(l) => l.0.contains(&0) && l.0.iter().all(|x| *x <= 2) && !l.0.is_empty() && l.0.len() <= 255,
        _ => false,
    };
    tolerable_plan(p) && ext_ok && s.sig_alg == 0x0401 && !s.certs.is_empty()
}

/// The server takes liberties that leave the meaning of the conversation alone: extensions nobody asked for, another
/// signature algorithm (this client does not check signatures), no certificate. A client may refuse it, but if it goes
/// on and sends its key share then the rest has to work as with any other server.
pub fn tolerable_plan(p: &Plan) -> bool {
    let s = &p.srv;
    s.raw.is_none()
        && s.edits1.is_empty()
        && s.edits2.is_empty()
        && s.ver == 0x0303
        && s.suite == 0xcca8
        && s.comp == 0
        && s.curve == 23
        && s.curve_type == 3
        && s.sid_len <= 32
        && !matches!(s.ext, Ext::Raw(_))
        && match &s.key {
            KeySpec::Raw(b) => refc::Affine::from_bytes(&b.0).is_some(),
            _ => true,
        }
        && s.certs.iter().all(|c| *c > 0)
        && s.certs.iter().map(|c| *c as u64 + 3).sum::<u64>() < (1 << 24) - 16
        && p.atk.iter().all(|e| matches!(e.op, RecOp::Split(_)) && e.at < 2)
        && p.atk_c.is_empty()
        && p.entropy.fail_at.is_none()
}

const ALL: &[&str] = &["C01", "C05", "C06", "C07", "C08", "C09", "C11", "C13", "C14", "C15", "C16", "C17", "C18", "C19"];

pub fn judge(p: &Plan, o: &Outcome) -> Judged {
    let mut f: Vec<Finding> = vec![];
    macro_rules! find {
        ($code:expr, $props:expr, $($a:tt)*) => { f.push(Finding { code: $code, props: $props, detail: format!($($a)*) }) };
    }
    let perm = p.net.rfault.iter().filter(|x| x.n == 0).map(|x| x.off as usize).min();
    let limit = perm.unwrap_or(usize::MAX).min(o.s2c.len());
    // a fault at a byte that never comes is none
    let ended = o.stream_ended || perm.is_some_and(|x| x <= o.s2c.len());
    let pre = handshake(&o.s2c, limit, &C2s::default());
    let c2s = parse_c2s(p, o, &|| (pre.server_random.clone(), pre.server_point.clone()));
    let hs = handshake(&o.s2c, limit, &c2s);
    let is_honest = honest(p, o) || (c2s.cke_at.is_some() && tolerable_plan(p) && knows_key(p, o) && hs.flight1_at.is_some());
    let connected = o.connected();
    let tampered = o.counts.atk > 0 || o.counts.atk_c > 0;
    let in_transit = p.srv.edits_in_transit || tampered;
    let dup_fail = p.net.dup_fail && p.net.tcp;
    // a failing socket option may or may not be a reason to give up
    let opt_fail = o.counts.opt_fails > 0;

    // ---- crashes and hangs, anywhere ----
    for c in &o.calls {
        if let Res::Panic(m) = &c.res {
            if !(o.entropy_failed && c.call == Call::Connect) {
                find!("panic", ALL, "{:?} panicked: {}", c.call, m);
            }
        }
        if c.spin {
            find!("spin", ALL, "{:?} keeps calling the transport without making progress", c.call);
        }
    }
    let crashed = !f.is_empty();
    for c in &o.calls {
        if c.call == Call::Close {
            break;
        }
        if c.self_fail && matches!(c.res, Res::Err(..)) {
            find!("self-inflicted", &["C18"], "{:?} failed although the network was merely slow: the client's own socket settings made the call fail", c.call);
            break;
        }
    }

    let con = match o.calls.first() {
        Some(c) => c,
        None => return Judged { findings: f, hs, c2s, reads: None },
    };

    // ---- memory ----
    let biggest = o.calls.iter().map(|c| match c.call {
        Call::Write(n) | Call::WriteAll(n) | Call::Read(n) => n,
        _ => 0,
    }).max().unwrap_or(0);
    let bound = 64 * (o.s2c_consumed as i64 + biggest as i64) + (1 << 20);
    if o.mem_peak > bound {
        find!("memory", &["C09"], "{} bytes held by the client after receiving {} bytes", o.mem_peak, o.s2c_consumed);
    }

    // ---- connecting ----
    if con.stuck && !crashed {
        match &hs.verdict {
            Verdict::Done(_) => find!("connect-stuck", &["C01", "C06", "C13", "C18", "C19", "C15"], "connecting waits for ever although the whole handshake arrived"),
            Verdict::Reject { what, why, .. } => {
                if !hs.maybe {
                    let props: &[&str] = if *why == Why::Size { &["C11", "C15", "C09"] } else { &["C11"] };
                    find!("connect-stuck", props, "connecting waits for ever although it must refuse: {}", what)
                }
            }
            Verdict::Need if is_honest => {
                if p.net.hold {
                    find!("connect-stuck", &["C13"], "connecting waits for an answer to bytes that were never flushed ({} held)", con.c2s_after - con.rel_after)
                } else {
                    find!("connect-stuck", &["C01", "C18", "C19", "C05"], "connecting to an honest server waits for ever (server: {:?})", o.srv.bad)
                }
            }
            _ => {}
        }
    }
    if connected {
        if con.fail_during {
            find!("connect-despite-failure", &["C16", "C18", "C13"], "connecting succeeded although the transport failed: {:?}", o.failed);
        }
        if dup_fail {
            find!("connect-despite-failure", &["C18"], "connecting succeeded although the socket could not be duplicated");
        }
        match &hs.verdict {
            Verdict::Reject { why, what, .. } if !hs.maybe || matches!(why, Why::Finished | Why::Mac | Why::Order | Why::Ccs) => {
                let props: &[&str] = match why {
                    Why::Order | Why::Ccs | Why::Alert | Why::Type => &["C03", "C02"],
                    Why::Malformed => &["C03", "C02"],
                    Why::Param => &["C04"],
                    Why::Finished | Why::Mac => &["C02", "C03"],
                    Why::Size => &["C15"],
                };
                find!("wrong-accept", props, "connecting succeeded although: {}", what);
            }
            Verdict::Need => find!("wrong-accept", &["C02", "C03"], "connecting succeeded before the handshake was complete"),
            _ => {}
        }
        // both ends must have seen the same conversation
        if let Verdict::Done(_) = &hs.verdict {
            if hs.msgs != o.srv.hs_sent && (in_transit || is_honest) && !prefix(&hs.msgs, &o.srv.hs_sent) {
                find!("transcript", &["C02"], "the client accepted handshake messages the server did not send");
            }
            let sent: Vec<u8> = c2s.hs.iter().flat_map(|m| m.1.clone()).collect();
            let sent_core: Vec<u8> = c2s.hs.iter().filter(|m| m.1[0] != 20).flat_map(|m| m.1.clone()).collect();
            if !o.srv.hs_rcvd.is_empty() && !prefix(&sent_core, &o.srv.hs_rcvd) && sent != o.srv.hs_rcvd {
                find!("transcript", &["C02"], "the server accepted handshake messages the client did not send");
            }
        }
        if is_honest && (!o.srv.done || o.srv.cli_fin_ok != Some(true)) && o.counts.wfaults == 0 && !p.net.hold {
            find!("server-refused", &["C01", "C18", "C19"], "connecting succeeded but the server did not accept the client: {:?}", o.srv.bad);
        }
        if c2s.keys.is_none() {
            find!("wrong-accept", &["C02", "C04"], "connecting succeeded with a server key nobody holds");
        }
    } else if let Res::Err(_, k) = &con.res {
        let k = k.clone().unwrap_or_default();
        if !con.stuck && !con.spin {
            let alerts: Vec<&(usize, bool, u8, u8)> = c2s.alerts.iter().collect();
            if opt_fail && k != IO && is_honest && !con.fail_during {
                find!("error-kind", &["C18"], "failure to set a socket option reported as {}", k);
            }
            if dup_fail {
                if k != IO {
                    find!("error-kind", &["C18"], "failure to duplicate the socket reported as {}", k);
                }
            } else if con.fail_during {
                if k == IO {
                    if !alerts.is_empty() {
                        find!("alert-on-io", &["C11", "C16"], "a transport failure was answered with an alert {:?}", alerts);
                    }
                } else if is_honest {
                    find!("error-kind", &["C16", "C18"], "transport failure ({:?}) while connecting reported as {}", o.failed, k);
                }
            }
            if k == IO && !con.fail_during && !dup_fail && !opt_fail {
                find!("error-kind", &["C11", "C16"], "connecting reports a transport failure although the transport did not fail ({})", verdict_text(&hs));
            }
            if is_honest && !con.fail_during && !dup_fail && !opt_fail && !o.entropy_failed {
                let props: &[&str] = if p.net.hold { &["C13", "C01"] } else { &["C01", "C05", "C06", "C15", "C18", "C19"] };
                find!("honest-refused", props, "connecting to an honest server failed with {} (server: {:?})", k, o.srv.bad);
            } else if let (Verdict::Done(_), false, false, true) = (&hs.verdict, hs.maybe, con.fail_during, o.srv.bad.is_none()) {
                if !dup_fail && !o.entropy_failed {
                    find!("honest-refused", &["C01", "C15"], "connecting failed with {} although every server message was right", k);
                }
            }
            if let Verdict::Reject { kinds, what, pos, why } = &hs.verdict {
                let early = con.s2c_after < *pos;
                if !hs.maybe && k != IO && !kinds.contains(&k.as_str()) && !early {
                    let props: &[&str] = if *why == Why::Size { &["C11", "C15"] } else { &["C11"] };
                    find!("error-kind", props, "{} reported as {} (expected {:?})", what, k, kinds);
                }
                if k == IO && con.fail_during && con.s2c_after >= *pos && !hs.maybe && o.counts.wfaults + o.counts.ffaults + o.counts.rfaults == 0 && certain(why) {
                    find!("error-kind", &["C11"], "{} ignored until the transport ended", what);
                }
            }
            // the alert
            if k != IO && !con.fail_during {
                if k == AR {
                    if alerts.len() > 1 {
                        find!("alert-count", &["C11"], "{} alerts after an alert from the peer", alerts.len());
                    }
                } else if let Some(want) = alert_for(&k) {
                    let ok = alerts.len() == 1 && alerts[0].2 == 2 && alerts[0].3 == want;
                    if !ok {
                        find!("alert-match", &["C11"], "failure {} answered with alerts {:?}, expected exactly one fatal {}", k, alerts, want);
                    } else {
                        let last = c2s.recs.last().unwrap();
                        if last.ct != 21 || !last.complete {
                            find!("alert-last", &["C11", "C17"], "something follows the fatal alert");
                        }
                        if alerts[0].1 != c2s.ccs_at.is_some() {
                            find!("alert-protect", &["C11", "C10"], "alert protection does not match the cipher state");
                        }
                    }
                }
            }
        }
    }
    if (con.fail_during || dup_fail) && !connected {
        if o.c2s.len() > o.failed_at && con.fail_during {
            find!("sent-after-failure", &["C16"], "{} bytes sent after the transport failed ({:?})", o.c2s.len() - o.failed_at, o.failed);
        }
        if dup_fail && !o.c2s.is_empty() {
            find!("sent-after-failure", &["C16", "C18"], "bytes sent although the socket could not be duplicated");
        }
    }
    if o.entropy_failed && connected {
        find!("entropy", &["C12"], "connecting succeeded although the entropy source failed");
    }
    if o.entropy_failed && c2s.cke_at.is_some() {
        find!("entropy", &["C12"], "a key share was sent although the entropy source failed");
    }
    if let Some(at) = c2s.cke_at {
        // the stream position the client had consumed when it sent its key share
        let seen = o.wmarks.iter().find(|m| m.0 > at).map(|m| m.1).unwrap_or(usize::MAX);
        match hs.flight1_at {
            Some(x) if x <= seen => {}
            _ => {
                let (props, what): (&[&str], String) = match &hs.verdict {
                    Verdict::Reject { why: Why::Param, what, .. } => (&["C04", "C03"], what.clone()),
                    Verdict::Reject { what, .. } => (&["C03"], what.clone()),
                    _ => (&["C03"], "first flight incomplete".into()),
                };
                if !hs.maybe {
                    find!("early-key-share", props, "the key share was sent although: {}", what);
                }
            }
        }
        if !c2s.cke_point.is_empty() && !valid_point(&c2s.cke_point) && o.c2s.len() > at + 60 {
            find!("bad-key-share", &["C12", "C01"], "the key share sent is not a valid curve point");
        }
    }

    // ---- what the client emitted ----
    let mut last_seq: Option<u64> = None;
    let mut seen: Vec<(u64, &CRec)> = vec![];
    for r in c2s.recs.iter().filter(|r| r.prot) {
        if let Some(s) = r.seq {
            if last_seq.is_none() && s != 0 {
                find!("nonce", &["C10"], "the first protected record has sequence number {}", s);
            }
            if let Some(l) = last_seq {
                if s <= l {
                    let prev = seen.iter().rev().find(|x| x.0 == s);
                    match prev {
                        Some((_, q)) if q.bytes == r.bytes => {}
                        _ => find!("nonce", &["C10"], "sequence number {} used again (after {}): {} and {} bytes under one nonce", s, l, prev.map(|x| x.1.bytes.len()).unwrap_or(0), r.bytes.len()),
                    }
                }
            }
            last_seq = Some(last_seq.map_or(s, |l| l.max(s)));
            if seen.len() < 64 || s < 64 {
                seen.push((s, r));
            } else {
                seen.remove(0);
                seen.push((s, r));
            }
        }
    }
    for (code, what) in &c2s.problems {
        match *code {
            "version" | "size" => find!("framing", &["C15"], "{}", what),
            "clear" => find!("clear", &["C10"], "{}", what),
            "protect" => {
                if c2s.keys.is_some() {
                    find!("unprotected", &["C10"], "{}", what)
                }
            }
            _ => find!("framing", &["C15", "C01"], "{}", what),
        }
    }

    // ---- alerts over the whole history ----
    let fatal: Vec<&(usize, bool, u8, u8)> = c2s.alerts.iter().filter(|a| a.3 != 0).collect();
    let closes: Vec<&(usize, bool, u8, u8)> = c2s.alerts.iter().filter(|a| a.3 == 0).collect();
    if fatal.len() > 1 {
        find!("alert-count", &["C11", "C17"], "{} alerts sent: {:?}", fatal.len(), fatal);
    }
    for a in &c2s.alerts {
        let call = o.calls.iter().find(|c| c.c2s_before <= a.0 && a.0 < c.c2s_after);
        if let Some(c) = call {
            if a.3 != 0 && matches!(c.res, Res::Ok(_)) {
                // a read may deliver what it had and report the failure next time
                let later_err = o.calls.iter().skip_while(|x| !std::ptr::eq(*x, c)).skip(1).any(|x| matches!(x.call, Call::Read(_)) && matches!(x.res, Res::Err(..)));
                let later_read = o.calls.iter().skip_while(|x| !std::ptr::eq(*x, c)).skip(1).any(|x| matches!(x.call, Call::Read(n) if n > 0));
                if !matches!(c.call, Call::Read(_)) || (later_read && !later_err) {
                    find!("alert-stray", &["C11"], "{:?} succeeded but sent alert {:?}", c.call, a);
                }
            }
            if p.net.hold && c.rel_after <= a.0 && o.counts.ffaults == 0 && o.counts.wfaults == 0 {
                find!("alert-held", &["C11", "C13"], "{:?} returned with alert {:?} left in the transport's buffer", c.call, a);
            }
            if a.3 != 0 && c.call == Call::Close {
                find!("alert-stray", &["C17"], "closing sent alert {:?}", a);
            }
            if a.1 != c2s.ccs_at.map_or(false, |x| a.0 > x) {
                find!("alert-protect", &["C11", "C17", "C10"], "alert {:?} not protected", a);
            }
        }
    }
    if let Some(a) = fatal.first() {
        let end = c2s.recs.iter().find(|r| r.start == a.0).map(|r| r.end).unwrap_or(o.c2s.len());
        if o.c2s.len() > end {
            find!("sent-after-alert", &["C11", "C17"], "{} bytes follow the fatal alert {:?}", o.c2s.len() - end, a);
        }
    }

    // ---- close ----
    let first_close = o.calls.iter().position(|c| c.call == Call::Close);
    if closes.len() > 1 {
        find!("close-count", &["C17"], "{} closing alerts sent", closes.len());
    }
    if let Some(a) = closes.first() {
        let end = c2s.recs.iter().find(|r| r.start == a.0).map(|r| r.end).unwrap_or(o.c2s.len());
        if o.c2s.len() > end {
            find!("sent-after-close", &["C17"], "{} bytes follow the closing alert", o.c2s.len() - end);
        }
    }

    let mut rd = None;
    if connected {
        let keys = c2s.keys.clone();
        let done = match &hs.verdict {
            Verdict::Done(p) => Some(*p),
            _ => None,
        };
        if let (Some(k), Some(from)) = (keys, done) {
            let r = reads(&o.s2c, from, limit, ended, &hs, &k, p.srv.skip_s);
            walk_reads(p, o, &r, is_honest, tampered, &mut f);
            alerts_for_reads(o, &r, &c2s, &mut f);
            rd = Some(r);
        }
        walk_writes(p, o, &c2s, rd.as_ref(), first_close, is_honest, &mut f);
    }
    Judged { findings: f, hs, c2s, reads: rd }
}

fn certain(w: &Why) -> bool {
    !matches!(w, Why::Type | Why::Alert)
}

fn prefix(a: &[u8], b: &[u8]) -> bool {
    b.len() >= a.len() && &b[..a.len()] == a
}

fn verdict_text(h: &Hs) -> String {
    match &h.verdict {
        Verdict::Done(_) => "handshake was right".into(),
        Verdict::Reject { what, .. } => what.clone(),
        Verdict::Need => "handshake incomplete".into(),
    }
}

fn walk_reads(p: &Plan, o: &Outcome, r: &Reads, is_honest: bool, tampered: bool, f: &mut Vec<Finding>) {
    macro_rules! find {
        ($code:expr, $props:expr, $($a:tt)*) => { f.push(Finding { code: $code, props: $props, detail: format!($($a)*) }) };
    }
    const DATA: &[&str] = &["C01", "C06", "C07", "C08", "C15", "C18", "C19"];
    let total = r.data.len();
    let mut closed_here = false; // the application closed, or the client gave up sending
    let mut eof_seen = false;
    let mut err_seen: Option<bool> = None; // Some(transport failure involved)
    if !prefix(&o.delivered, &r.data) {
        let i = o.delivered.iter().zip(&r.data).position(|(a, b)| a != b).unwrap_or(r.data.len().min(o.delivered.len()));
        let what = if o.delivered.len() > total && i == total {
            format!("{} bytes delivered that must not be: only {} acceptable ({})", o.delivered.len() - total, total, term_text(&r.term))
        } else {
            format!("delivered byte {} differs from what the peer sent", i)
        };
        find!("wrong-data", DATA, "{}", what);
        return;
    }
    for c in &o.calls {
        let asked = match c.call {
            Call::Read(n) => n,
            Call::Close => {
                closed_here = true;
                continue;
            }
            Call::Write(_) | Call::WriteAll(_) | Call::Flush => {
                if matches!(c.res, Res::Err(..)) {
                    closed_here = true;
                }
                continue;
            }
            _ => continue,
        };
        let got = match &c.res {
            Res::Ok(n) => *n,
            _ => 0,
        };
        let have = c.delivered + got;
        if let Res::Ok(n) = &c.res {
            if *n > asked {
                find!("wrong-data", DATA, "read({}) claims {} bytes", asked, n);
                return;
            }
        }
        if c.stuck {
            let avail = total - c.delivered.min(total);
            if avail >= asked && asked > 0 {
                find!("read-stuck", &["C06", "C15", "C18", "C19", "C08"], "read({}) waits for more although {} undelivered bytes have arrived", asked, avail);
            } else if r.term != Term::Open && r.maybe.is_none() {
                find!("read-stuck", &["C06", "C08", "C07", "C15", "C11"], "read({}) waits for transport input although the outcome is determined: {}", asked, term_text(&r.term));
            } else if asked == 0 {
                find!("read-stuck", &["C06"], "read(0) waits for transport input");
            }
            return;
        }
        match &c.res {
            Res::Ok(0) if asked > 0 => {
                let legit = (r.term == Term::Eof && have == total) || r.maybe_eof.map_or(false, |m| have >= m);
                if !legit && !closed_here && err_seen.is_none() {
                    match &r.term {
                        Term::Error { what, .. } => find!("false-eof", &["C07", "C08", "C06", "C11"], "end of stream reported after {} bytes; {}", have, what),
                        Term::Trunc => find!("false-eof", &["C08", "C16", "C06", "C18"], "end of stream reported after {} bytes although the transport failed ({:?})", have, o.failed),
                        _ if c.fail_before || c.fail_during => find!("false-eof", &["C08", "C16", "C06", "C18"], "end of stream reported after {} bytes although the transport failed ({:?})", have, o.failed),
                        _ => find!("false-eof", &["C06", "C08", "C18", "C19"], "end of stream reported after {} of {} bytes although the peer did not close", have, total),
                    }
                    return;
                }
                if err_seen.is_some() && !legit {
                    find!("error-not-sticky", &["C07", "C08", "C16"], "end of stream reported after an earlier read error");
                    return;
                }
                eof_seen = true;
            }
            Res::Ok(n) => {
                if eof_seen && *n > 0 {
                    find!("data-after-eof", &["C08", "C06"], "data delivered after end of stream");
                    return;
                }
                if err_seen == Some(false) && *n > 0 {
                    find!("error-not-sticky", &["C07", "C08"], "data delivered after a fatal read error");
                    return;
                }
            }
            Res::Err(k, tk) => {
                let tf = c.fail_before || c.fail_during;
                if err_seen.is_some() {
                    continue;
                }
                if eof_seen {
                    if !closed_here && r.maybe_eof.is_none() && r.maybe.is_none() {
                        find!("eof-not-sticky", &["C08", "C06"], "an error ({}) after end of stream was reported", k);
                        return;
                    }
                    err_seen = Some(tf);
                    continue;
                }
                // a time-out or similar may strike before the client had consumed everything
                let upto = if tf { r.data_at(c.s2c_after) } else { total };
                let maybe = r.maybe.map_or(false, |m| have >= m);
                let term_err = matches!(r.term, Term::Error { .. });
                if have < upto && !maybe && !closed_here && !c.fail_before {
                    find!("lost-data", &["C06", "C08", "C16", "C18", "C15", "C01", "C07"], "read failed ({}) after {} bytes although {} complete ones had arrived before the failure", k, have, upto);
                    return;
                }
                if !(tf || term_err || maybe || closed_here) {
                    find!("false-error", &["C06", "C01", "C18", "C19", "C08", "C15"], "read failed ({} {:?}) after {} of {} bytes; {}", k, tk, have, total, term_text(&r.term));
                    return;
                }
                err_seen = Some(tf && !term_err);
            }
            Res::Panic(_) => return,
        }
    }
    let _ = (p, is_honest, tampered);
}

fn term_text(t: &Term) -> String {
    match t {
        Term::Open => "the connection is open".into(),
        Term::Eof => "the peer closed".into(),
        Term::Error { what, .. } => format!("must fail: {}", what),
        Term::Trunc => "the transport ended".into(),
    }
}

/// A fatal deviation after the handshake: one alert of the right kind, once the failure is reported.
fn alerts_for_reads(o: &Outcome, r: &Reads, c2s: &C2s, f: &mut Vec<Finding>) {
    macro_rules! find {
        ($code:expr, $props:expr, $($a:tt)*) => { f.push(Finding { code: $code, props: $props, detail: format!($($a)*) }) };
    }
    let first_err = o.calls.iter().position(|c| matches!(c.call, Call::Read(_)) && matches!(c.res, Res::Err(..)));
    let i = match first_err {
        Some(i) => i,
        None => return,
    };
    let c = &o.calls[i];
    if c.stuck || c.spin || o.calls[..i].iter().any(|x| x.call == Call::Close || (matches!(x.call, Call::Write(_) | Call::WriteAll(_) | Call::Flush) && matches!(x.res, Res::Err(..)))) {
        return;
    }
    let (k, transport) = match &c.res {
        Res::Err(_, k) => (k.clone(), c.fail_before || c.fail_during),
        _ => return,
    };
    let fatal: Vec<&(usize, bool, u8, u8)> = c2s.alerts.iter().filter(|a| a.3 != 0).collect();
    match &r.term {
        Term::Error { kinds, why, what } if r.maybe.is_none() && !transport => {
            if let Some(k) = &k {
                if !kinds.contains(&k.as_str()) && !kinds.contains(&"other") {
                    let props: &[&str] = if *why == Why::Size { &["C11", "C15"] } else { &["C11"] };
                    find!("error-kind", props, "{} reported as {} (expected {:?})", what, k, kinds);
                }
            }
            if *why == Why::Alert && what.starts_with("fatal") {
                if c2s.alerts.len() > 1 {
                    find!("alert-count", &["C11"], "{} alerts after an alert from the peer", c2s.alerts.len());
                }
                return;
            }
            let allowed: Vec<u8> = kinds.iter().filter_map(|k| alert_for(k)).collect();
            let sent: Vec<u8> = c2s.alerts.iter().map(|a| a.3).collect();
            let other = kinds.contains(&"other");
            if *why == Why::Alert && sent.len() <= 1 && kinds.contains(&AR) {
                return;
            }
            if fatal.len() != 1 || (!allowed.contains(&fatal[0].3) && !other) || fatal[0].2 != 2 || !fatal[0].1 {
                find!("alert-match", &["C11"], "{} answered with alerts {:?}, expected exactly one protected fatal {:?}", what, c2s.alerts, allowed);
            } else if let Some(k) = &k {
                if alert_for(k) != Some(fatal[0].3) {
                    find!("alert-match", &["C11"], "failure {} answered with alert {}", k, fatal[0].3);
                }
            }
        }
        _ if transport && matches!(r.term, Term::Trunc | Term::Open | Term::Eof) => {
            if !fatal.is_empty() {
                find!("alert-on-io", &["C11", "C16"], "a transport failure was answered with an alert {:?}", fatal);
            }
        }
        _ => {}
    }
}

fn walk_writes(p: &Plan, o: &Outcome, c2s: &C2s, r: Option<&Reads>, first_close: Option<usize>, is_honest: bool, f: &mut Vec<Finding>) {
    macro_rules! find {
        ($code:expr, $props:expr, $($a:tt)*) => { f.push(Finding { code: $code, props: $props, detail: format!($($a)*) }) };
    }
    // how far the attempted stream went, and up to where everything was acknowledged
    let mut attempted = 0u64;
    let mut acked = 0u64; // all writes up to here succeeded
    let mut acked_ok = true;
    let mut flushed = 0u64; // acknowledged and pushed out by flush or close
    let mut given_up = false; // closed or failed: writes are to be refused
    let mut maybe_refused = false; // a read failed or the peer closed: refusing is fine
    let fatal_at = c2s.alerts.iter().filter(|a| a.3 != 0).map(|a| a.0).min();
    for (i, c) in o.calls.iter().enumerate() {
        match c.call {
            Call::Write(n) | Call::WriteAll(n) => {
                let end = match c.res {
                    Res::Ok(m) => c.attempted + m as u64,
                    _ => c.attempted + n as u64,
                };
                match &c.res {
                    Res::Ok(m) => {
                        if n > 0 && *m == 0 {
                            find!("write-zero", &["C05"], "write({}) accepted nothing and reported success", n);
                        }
                        if *m > n {
                            find!("write-zero", &["C05"], "write({}) claims {} bytes", n, m);
                        }
                        if given_up && n > 0 {
                            find!("write-after-close", &["C17"], "write({}) succeeded after the connection was closed or had failed", n);
                        }
                        if c.fail_during && n > 0 && wfault_in(o, c) {
                            find!("write-despite-failure", &["C05", "C16", "C18"], "write({}) succeeded although the transport failed ({:?})", n, o.failed);
                        }
                        if acked_ok {
                            acked = end;
                        }
                        attempted = end;
                    }
                    Res::Err(k, _) => {
                        if !given_up {
                            // refused writes after close are not attempts
                            attempted = end;
                        }
                        acked_ok = false;
                        if !(c.fail_during || c.fail_before || given_up || maybe_refused || c.stuck || c.spin) {
                            find!("write-refused", &["C05", "C01", "C18", "C19"], "write({}) failed ({}) on a working connection", n, k);
                        }
                        if c.stuck {
                            find!("write-stuck", &["C05", "C18"], "write({}) waits for ever", n);
                        }
                        if c.fail_during {
                            maybe_refused = true;
                        }
                    }
                    Res::Panic(_) => {}
                }
            }
            Call::Flush => match &c.res {
                Res::Ok(_) => {
                    if p.net.hold && c.rel_after < c.c2s_after {
                        find!("flush-held", &["C13"], "flush succeeded but {} bytes are still held by the transport", c.c2s_after - c.rel_after);
                    }
                    if c.fail_during {
                        find!("flush-despite-failure", &["C13", "C16"], "flush succeeded although the transport failed ({:?})", o.failed);
                    }
                    if acked_ok {
                        flushed = acked;
                    }
                }
                Res::Err(k, _) => {
                    if !(c.fail_during || c.fail_before || given_up || maybe_refused) {
                        find!("flush-refused", &["C13"], "flush failed ({}) on a working connection", k);
                    }
                    if c.fail_during {
                        maybe_refused = true;
                    }
                }
                _ => {}
            },
            Call::Close => {
                let first = first_close == Some(i);
                if !first || given_up {
                    if c.c2s_after != c.c2s_before && !first {
                        find!("sent-after-close", &["C17"], "closing again sent {} bytes", c.c2s_after - c.c2s_before);
                    }
                } else {
                    match &c.res {
                        Res::Ok(_) => {
                            if c.fail_during && wfault_in(o, c) {
                                find!("close-despite-failure", &["C13", "C16", "C17"], "close succeeded although the transport failed ({:?})", o.failed);
                            }
                            if p.net.hold && c.rel_after < c.c2s_after {
                                find!("close-held", &["C13"], "close succeeded but {} bytes are still held by the transport", c.c2s_after - c.rel_after);
                            }
                            let sent: Vec<_> = c2s.alerts.iter().filter(|a| a.3 == 0).collect();
                            if sent.is_empty() && !c.fail_before && !maybe_refused {
                                find!("close-missing", &["C17", "C13"], "close succeeded without a closing alert");
                            }
                            for a in sent {
                                if !a.1 {
                                    find!("close-clear", &["C17", "C10"], "the closing alert is not protected");
                                }
                            }
                            if acked_ok {
                                flushed = acked;
                            }
                        }
                        Res::Err(k, _) => {
                            if !(c.fail_during || c.fail_before || maybe_refused) {
                                find!("close-refused", &["C17"], "close failed ({:?}) on a working connection", k);
                            }
                            if c.stuck {
                                find!("close-stuck", &["C17"], "close waits for ever");
                            }
                        }
                        _ => {}
                    }
                }
                if matches!(c.res, Res::Ok(_)) || !c.fail_during {
                    given_up = true;
                }
            }
            Call::Read(n) => match &c.res {
                Res::Err(..) => maybe_refused = true,
                Res::Ok(0) if n > 0 => maybe_refused = true,
                Res::Ok(_) => {
                    if c.stuck || c.fail_during {
                        maybe_refused = true
                    }
                    // failure noticed behind data already gathered
                    if r.map_or(false, |r| c.s2c_after >= r.term_at && r.term != Term::Open) || r.map_or(false, |r| r.maybe.is_some()) {
                        maybe_refused = true
                    }
                }
                _ => {}
            },
            Call::Connect | Call::ReadEnd(_) | Call::Drop => {}
        }
        if let Some(a) = fatal_at {
            if c.c2s_before <= a && a < c.c2s_after {
                given_up = true;
            }
        }
        // nothing after the first close / fatal alert
        if first_close.map_or(false, |x| i > x) && c.c2s_after != c.c2s_before && c.call != Call::Close {
            let fc = &o.calls[first_close.unwrap()];
            if matches!(fc.res, Res::Ok(_)) {
                find!("sent-after-close", &["C17"], "{:?} after close sent {} bytes", c.call, c.c2s_after - c.c2s_before);
            }
        }
    }

    // what the peer accepted
    let want = &o.app[..(attempted as usize).min(o.app.len())];
    if !prefix(&o.srv.rx, want) {
        let i = o.srv.rx.iter().zip(want).position(|(a, b)| a != b).unwrap_or(attempted as usize);
        find!("peer-data", &["C05", "C01", "C18", "C19"], "the peer accepted {} bytes that differ at {} from the {} bytes written", o.srv.rx.len(), i, attempted);
        return;
    }
    let quiet_atk = o.counts.atk_c == 0;
    let must = if p.net.hold { flushed } else { acked };
    if quiet_atk && (o.srv.rx.len() as u64) < must && !server_gave_up(o, is_honest) {
        let props: &[&str] = if p.net.hold { &["C13", "C05"] } else { &["C05", "C01", "C18", "C19", "C17"] };
        find!("peer-missing", props, "the peer got {} of {} acknowledged bytes (server: {:?})", o.srv.rx.len(), must, o.srv.bad);
    }
    if quiet_atk && o.counts.wfaults + o.counts.ffaults == 0 {
        if let Some(b) = &o.srv.bad {
            if is_honest {
                find!("server-objects", &["C05", "C10", "C01", "C17", "C18", "C19"], "the strict server objects: {}", b);
            }
        }
        // order at the peer: data, then one close
        let close_ok = first_close.map_or(false, |x| matches!(o.calls[x].res, Res::Ok(_)) && !o.calls[x].fail_before);
        if close_ok && is_honest && !server_gave_up(o, is_honest) && !p.net.hold {
            let n = o.srv.ev.iter().filter(|e| matches!(e, SrvEv::Alert(_, 0))).count();
            let failed_read = maybe_refused;
            if n == 0 && !failed_read {
                find!("close-missing", &["C17"], "the peer did not receive the closing alert");
            }
            if o.srv.bytes_after_close > 0 {
                find!("sent-after-close", &["C17"], "the peer received {} bytes after the closing alert", o.srv.bytes_after_close);
            }
        }
    }
}

/// the failure seen during this call was on the write side
fn wfault_in(o: &Outcome, c: &CallRec) -> bool {
    o.counts.wfaults + o.counts.ffaults > 0 && c.fail_during
}

fn server_gave_up(o: &Outcome, is_honest: bool) -> bool {
    // a scripted server that ends its own stream still receives; only an objection stops it
    o.srv.bad.is_some() && !is_honest
}
