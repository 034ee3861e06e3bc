//! The agent's side of a connection (C14 to C17): connection attempts and their
//! timing, registration, notifications and answers.
use crate::hist::*;
use crate::kernel::*;
use crate::oracle::*;
use crate::plan::*;
use crate::run::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const BAD_CERTS: [&str; 5] = ["wrong_host_cert", "untrusted_cert", "expired_cert", "future_cert", "self_signed_cert"];
/// An attempt on a server that doesn't respond must be over by then.
const PATIENCE: Time = 60 * SEC;
/// Timers are rounded to milliseconds.
const EARLY: Time = 3 * MS;

/// One connection seen from the server.
struct Conn { rec: AttemptRec, conn: usize, reg: Option<(Time, u64, Value)>, msgs: Vec<(Time, u64, Value)>, slow: Vec<(Time, Time)>, admitted: Option<Time>, end: Time, open: bool, clean: bool, muddled: bool }
impl Conn {
    /// When something the agent sent at `t` must have been read at the latest.
    fn deadline(&self, t: Time) -> Time {
        // Nothing is due before the agent knows it is registered.
        let mut d = t.max(self.admitted.unwrap_or(0)) + SLACK;
        loop { match self.slow.iter().filter(|s| s.0 <= d && s.1 + SLACK > d).map(|s| s.1 + SLACK).max() { Some(x) => d = x, None => return d } }
    }
}

pub fn check(c: &mut Ctx) {
    let Some(sv) = c.plan.server.clone() else { return };
    let h = c.o.h.borrow();
    let calls = h.calls.clone();
    let mut conns: Vec<Conn> = vec![];
    for r in &h.attempts {
        let of: Vec<&(Time, u64, usize, AMsg)> = h.agent.iter().filter(|m| m.2 == r.conn).collect();
        let msgs: Vec<(Time, u64, Value)> = of.iter().filter_map(|m| if let AMsg::In(v) = &m.3 { Some((m.0, m.1, v.clone())) } else { None }).collect();
        let muddled = calls.iter().any(|k| k.conn == r.conn && !k.via_http() && matches!(&k.req, Do::Raw { bytes, .. } if bytes.starts_with("frame:") || bytes.starts_with("tcp:")));
        conns.push(Conn { rec: r.clone(), conn: r.conn, reg: msgs.iter().find(|m| m.2["type"] == "Register").cloned(), slow: of.iter().filter_map(|m| if let AMsg::Slow { until } = m.3 { Some((m.0, until)) } else { None }).collect(), msgs, admitted: r.registered, end: if r.t_end == 0 { c.o.end } else { r.t_end }, open: r.t_end == 0, clean: r.why == "agent closed" || r.why == "agent closed the WebSocket", muddled });
    }
    let bads: Vec<(Time, usize, String)> = h.agent.iter().filter_map(|m| if let AMsg::Bad(b) = &m.3 { Some((m.0, m.2, b.clone())) } else { None }).collect();
    drop(h);
    for (t, k, b) in bads {
        let early = conns.iter().find(|x| x.conn == k).map_or(true, |x| x.admitted.map_or(true, |a| t < a));
        c.bad(if early { "C14" } else { "C16" }, format!("the agent sent at {} {}", Ctx::rel(t), b));
    }
    registrations(c, &sv, &conns);
    attempts(c, &conns);
    notifications(c, &conns, &calls);
    answers(c, &conns, &calls);
    // What a server asked for is right or wrong like what anybody asks for.
    let p = c.plan.prop.clone();
    let of: &[&str] = match p.as_str() { "C15" => &["C01", "C02", "C06", "C07", "C09"], "C16" => &["C01", "C02", "C03", "C06", "C07", "C08", "C09", "C14"], "C17" => &["C01", "C02", "C03", "C06", "C07", "C08", "C09", "C14", "C15", "C16"], _ => &[] };
    let more: Vec<String> = c.v.iter().filter(|v| of.contains(&v.prop.as_str())).map(|v| v.what.clone()).collect();
    for w in more { c.bad(&p, w); }
}

fn registrations(c: &mut Ctx, sv: &ServerPlan, conns: &[Conn]) {
    let _ = sv;
    let env = |k: &str| c.plan.env.get(k).map(|v| String::from_utf8_lossy(&unhex(v)).to_string());
    let token = env("PROCSTAR_AGENT_TOKEN").unwrap_or_default();
    let nocert = c.plan.env.get("PROCSTAR_AGENT_CERT").is_none();
    let want_conn = c.opt("--conn-id");
    let want_group = c.opt("--group-id").unwrap_or("default".into());
    let want_exe = c.opt("--restrict-exe").map_or(Value::Null, |e| json!(e));
    let usr1 = c.t.sup_signals.iter().find(|s| s.1 == 10).map(|s| s.0);
    let other = c.t.sup_signals.iter().filter(|s| s.1 != 10).map(|s| s.0).min();
    let mut first: Option<(Value, Value)> = None;
    for k in conns {
        let at = Ctx::rel(k.rec.t_syn);
        if BAD_CERTS.contains(&k.rec.kind.as_str()) || nocert && k.rec.kind != "refuse" {
            c.n("unverified servers");
            if k.rec.saw_app_bytes > 0 { c.bad("C14", format!("the agent sent {} bytes on the connection of {} to a server it could not have verified ({}{})", k.rec.saw_app_bytes, at, k.rec.kind, if nocert { ", no certificate given" } else { "" })); }
            if k.rec.tls_done && k.rec.got_http { c.bad("C14", format!("the agent went ahead on the connection of {} with a server it could not have verified ({})", at, k.rec.kind)); }
        }
        if k.rec.kind == "bad_accept" && k.reg.is_some() { c.bad("C14", format!("the agent registered on the connection of {} although the server did not agree to it", at)); }
        let Some((t, s, m)) = &k.reg else { continue };
        c.n("registrations");
        let main = c.o.main;
        let mut wrong = |what: &str, got: &Value, want: String| c.bad("C14", format!("the registration of {} gives {} {} instead of {}", at, what, got, want));
        if m["access_token"] != json!(token) { wrong("access token", &m["access_token"], token.clone()); }
        if let Some(w) = &want_conn { if m["conn"]["conn_id"] != json!(w) { wrong("connection id", &m["conn"]["conn_id"], w.clone()); } } else if m["conn"]["conn_id"].as_str().map_or(true, |i| i.is_empty()) { wrong("connection id", &m["conn"]["conn_id"], "one".into()); }
        if m["conn"]["group_id"] != json!(want_group) { wrong("group", &m["conn"]["group_id"], want_group.clone()); }
        if m["conn"]["restricted_exe"] != want_exe { wrong("restricted executable", &m["conn"]["restricted_exe"], want_exe.to_string()); }
        if m["proc"]["pid"] != json!(main) { wrong("pid", &m["proc"]["pid"], main.to_string()); }
        if !m["proc_ids"].as_array().map_or(false, |a| a.iter().all(|x| x.is_string())) { wrong("processes", &m["proc_ids"], "a list".into()); }
        // The state was read after the handshake, sent before this arrived.
        let st = m["shutdown_state"].as_str().unwrap_or("?").to_string();
        let idle_ok = usr1.map_or(false, |u| u <= *t);
        let ok = match st.as_str() { "active" => usr1.map_or(true, |u| u + SLACK >= k.rec.t_syn), "idling" => idle_ok, "done" => idle_ok || other.map_or(false, |u| u <= *t) || c.flag("--exit") || c.flag("--wait") || c.flag("--print") || c.opt("--output").is_some(), _ => false };
        if !ok { c.bad("C15", format!("the registration at {} says shutdown state {}", Ctx::rel(*t), st)); }
        let _ = s;
        match &first {
            None => first = Some((m["conn"].clone(), m["proc"].clone())),
            Some((a, p)) => {
                if m["conn"] != *a { let a = a.clone(); c.bad("C17", format!("the agent registered again at {} as {} rather than {}", Ctx::rel(*t), m["conn"], a)); }
                else if m["proc"] != *p { c.bad("C17", format!("the agent registered again at {} with another process description", Ctx::rel(*t))); }
            }
        }
    }
}

/// How the attempts follow each other.
fn attempts(c: &mut Ctx, conns: &[Conn]) {
    let num = |o: &str, d: f64| c.opt(o).and_then(|v| v.parse::<f64>().ok()).unwrap_or(d);
    let (start, mult, max) = (num("--connect-interval-start", 1.0), num("--connect-interval-mult", 2.0), num("--connect-interval-max", 60.0));
    let count_max: u64 = c.opt("--connect-count-max").and_then(|v| v.parse().ok()).unwrap_or(u64::MAX);
    let interval = |k: u64| -> Time { let mut i = start; for _ in 1..k.min(2000) { i = (i * mult).min(max); if i == max { break; } } (i * 1e9) as Time };
    let stop = c.t.sup_signals.iter().filter(|s| [2, 3, 10, 15].contains(&s.1)).map(|s| s.0).min().unwrap_or(u64::MAX);
    let modes = c.flag("--exit") || c.flag("--wait") || c.flag("--print") || c.opt("--output").is_some();
    let exit = c.t.main_exit;
    let nocert = c.plan.env.get("PROCSTAR_AGENT_CERT").is_none();
    let syns = c.w.syns.clone();
    if exit.map_or(false, |e| e.2 & 0x7f != 0 || e.2 >> 8 == 101 || e.2 >> 8 == 65 || e.2 >> 8 == 2) { return; }
    c.counts.insert("connection attempts".into(), syns.len() as u64);
    // Attempts end when?  (failed by, lost by, may fail, may register)
    let fate = |i: usize| -> (Time, Time, bool, bool) {
        let (t, conn, kind) = syns[i];
        match kind {
            1 | 3 => return (t + SEC, 0, true, false),
            2 => return (t + PATIENCE, 0, true, false),
            _ => {}
        }
        let Some(k) = conns.iter().find(|k| k.conn == conn) else { return (t + PATIENCE, 0, true, false) };
        let end = if k.open { u64::MAX } else { k.end };
        let slow = |a: Time| k.slow.iter().filter(|s| s.0 <= a).map(|s| s.1).max().unwrap_or(0);
        let failed = end.max(slow(end)).min(t + PATIENCE);
        let lost = if end == u64::MAX { end } else { end.max(slow(end)) };
        match k.admitted {
            None => (failed, 0, true, false),
            // It may not have heard.
            Some(a) => {
                let doubt = a > t + 25 * SEC || end < a + SEC || k.slow.iter().any(|s| s.0 <= a + SEC && s.1 >= t) || nocert;
                (if end == u64::MAX { t + PATIENCE } else { lost.min(a.max(t) + PATIENCE) }, lost, doubt, true)
            }
        }
    };
    let mut set: BTreeSet<u64> = BTreeSet::from([0]);
    for i in 0..syns.len() {
        let (t, _, kind) = syns[i];
        let (failed, lost, mayfail, mayreg) = fate(i);
        let describe = |set: &BTreeSet<u64>| format!("the attempt at {} ({}{}) after {:?} failures", Ctx::rel(t), match kind { 1 => "refused".into(), 2 => "not answered".into(), 3 => "name not found".into(), _ => conns.iter().find(|k| k.conn == syns[i].1).map_or("?".into(), |k| k.rec.kind.clone()) }, if mayreg { ", registered" } else { "" }, set);
        if let Some(n) = syns.get(i + 1) {
            if n.0 >= stop { return; }
            let mut next = BTreeSet::new();
            for k in &set {
                if mayfail && k + 1 < count_max { let d = interval(k + 1); if n.0 + EARLY >= t + d && n.0 <= failed.saturating_add(d) + SLACK { next.insert(k + 1); } }
                if mayreg && n.0 <= lost.saturating_add(SLACK) { next.insert(0); }
            }
            if next.is_empty() {
                let k = *set.iter().next().unwrap();
                let s = if k + 1 >= count_max && !mayreg { format!("the agent tried again at {} although {} was the last allowed ({} failures)", Ctx::rel(n.0), describe(&set), count_max) }
                    else if mayreg && !mayfail { format!("the agent tried again only at {}, having lost its connection by {}: {}", Ctx::rel(n.0), Ctx::rel(lost), describe(&set)) }
                    else if n.0 + EARLY < t + interval(k + 1) { format!("the agent tried again already at {}, before its interval of {} s passed: {}", Ctx::rel(n.0), interval(k + 1) as f64 / 1e9, describe(&set)) }
                    else { format!("the agent tried again only at {}, rather than {} s after {} at the latest: {}", Ctx::rel(n.0), interval(k + 1) as f64 / 1e9, Ctx::rel(failed), describe(&set)) };
                c.bad("C14", s);
                return;
            }
            set = next;
        } else {
            if modes || stop != u64::MAX && (stop <= c.o.end) { return; }
            let end = c.o.end;
            if let Some((te, _, st)) = exit {
                c.n("gave up");
                if st != 1 << 8 { c.bad("C14", format!("the agent gave up at {} with status {:#x}", Ctx::rel(te), st)); }
                if !(mayfail && set.iter().any(|k| k + 1 >= count_max)) { c.bad("C14", format!("the agent gave up at {} although {} failures are allowed: {}", Ctx::rel(te), count_max, describe(&set))); }
            } else {
                let fine = set.iter().any(|k| mayfail && if k + 1 >= count_max { failed.saturating_add(SLACK) >= end } else { failed.saturating_add(interval(k + 1)) + SLACK >= end }) || mayreg && lost.saturating_add(SLACK) >= end;
                if !fine { c.bad("C14", if set.iter().all(|k| k + 1 >= count_max) && !mayreg { format!("the agent has not given up by {} although {} failures are allowed: {}", Ctx::rel(end), count_max, describe(&set)) } else { format!("the agent has not tried again by {}: {}", Ctx::rel(end), describe(&set)) }); }
            }
        }
    }
    if syns.is_empty() && !modes && stop == u64::MAX && exit.is_none() { c.bad("C14", "the agent never tried to connect".into()); }
}

/// What a connected server must have been told.
fn notifications(c: &mut Ctx, conns: &[Conn], calls: &[Call]) {
    let main = c.t.main;
    let incs = c.t.incs.clone();
    let exit = c.t.main_exit;
    let up = exit.map_or(c.o.end, |e| e.0);
    let id_of = |c: &Ctx, tag: &Option<String>| tag.as_ref().and_then(|t| c.tags.get(t)).map(|x| x.1.clone());
    // Successful deletions.
    let dels: Vec<(Time, u64, Time, u64, String)> = calls.iter().filter_map(|k| if let Do::Delete { id } = &k.req { let ok = match &k.out { Outc::Http { status, .. } => *status == 200, Outc::Msg(m) => m["type"] == "ProcDelete", _ => false }; if ok { Some((k.t0, k.s0, k.t1, k.s1, id.clone())) } else { None } } else { None }).collect();
    // Deletions that may have happened.
    let maybe: Vec<(u64, String, u64)> = calls.iter().filter_map(|k| match (&k.req, &k.out) { (Do::Delete { id }, Outc::Http { status: 200, .. }) => Some((k.s0, id.clone(), k.s1)), (Do::Delete { id }, Outc::Msg(m)) if m["type"] == "ProcDelete" => Some((k.s0, id.clone(), k.s1)), (Do::Delete { id }, o) if !k.done() && !matches!(o, Outc::ConnFail(_)) => Some((k.s0, id.clone(), u64::MAX)), _ => None }).collect();
    let usr1 = c.t.sup_signals.iter().find(|s| s.1 == 10).map(|s| s.0);
    let hard = c.t.sup_signals.iter().filter(|s| [2, 3, 15].contains(&s.1)).map(|s| s.0).min();
    for k in conns {
        let Some((tr, sr, reg)) = &k.reg else { continue };
        let Some(_) = k.admitted else { continue };
        if k.muddled { continue; }
        let at = Ctx::rel(*tr);
        let close = k.end.min(up);
        let told = |from: u64, by: Time, f: &dyn Fn(&Value) -> bool| k.msgs.iter().any(|m| m.1 >= from && m.0 <= by && f(&m.2));
        let is = |m: &Value, id: &str| m["proc_id"] == json!(id);
        let ids: BTreeSet<String> = reg["proc_ids"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|y| y.to_string())).collect()).unwrap_or_default();
        let mut lost: Vec<String> = vec![];
        for i in incs.iter().filter(|i| i.parent == main) {
            let Some(id) = id_of(c, &i.tag) else { continue };
            let gone = |s: u64| maybe.iter().any(|d| d.1 == id && d.0 <= s && d.2 >= i.s_fork);
            // Its start.
            let d = k.deadline(i.t_fork.max(*tr));
            if i.t_fork >= *tr {
                if d < close { c.n("starts notified"); if !told(i.s_fork, d, &|m| m["type"] == "ProcResult" && is(m, &id) || m["type"] == "ProcDelete" && is(m, &id)) { lost.push(format!("of the start of {} (pid {}) at {}", id, i.pid, Ctx::rel(i.t_fork))); } }
            } else if i.s_fork < k.rec.s_http && !ids.contains(&id) && !gone(*sr) { lost.push(format!("of {} (pid {}), running since {}", id, i.pid, Ctx::rel(i.t_fork))); }
            else if i.t_fork < *tr && d < close && !ids.contains(&id) && !told(i.s_fork, d, &|m| (m["type"] == "ProcResult" || m["type"] == "ProcDelete") && is(m, &id)) && !gone(k.msgs.last().map_or(0, |m| m.1)) { lost.push(format!("of the start of {} (pid {}) at {} during registration", id, i.pid, Ctx::rel(i.t_fork))); }
            // Its end.
            if let Some((te, se, _)) = i.exit {
                // Ends of children that never ran await their error reports too.
                let d = k.deadline(te);
                if te > *tr && d < close { c.n("ends notified"); if !told(se, d, &|m| m["type"] == "ProcResult" && is(m, &id) && m["res"]["state"] != "running" || m["type"] == "ProcDelete" && is(m, &id)) { lost.push(format!("of the end of {} (pid {}) at {}", id, i.pid, Ctx::rel(te))); } }
            }
        }
        for (t0, s0, t1, _, id) in &dels {
            let d = k.deadline(*t1);
            if *t0 > *tr && d < close { c.n("deletions notified"); if !told(*s0, d, &|m| m["type"] == "ProcDelete" && is(m, id)) { lost.push(format!("of the deletion of {} between {} and {}", id, Ctx::rel(*t0), Ctx::rel(*t1))); } }
        }
        // Of each of several deletions of one id.
        let which: BTreeSet<&String> = dels.iter().map(|d| &d.4).collect();
        for id in which {
            let of: Vec<_> = dels.iter().filter(|d| d.4 == *id && d.0 > *tr && k.deadline(d.2) < close).collect();
            if of.len() < 2 { continue; }
            c.n("repeated deletions notified");
            let by = of.iter().map(|d| k.deadline(d.2)).max().unwrap();
            let n = k.msgs.iter().filter(|m| m.0 <= by && m.2["type"] == "ProcDelete" && is(&m.2, id)).count();
            if n < of.len() { lost.push(format!("of each of {} deletions of {} by {}, but of {}", of.len(), id, Ctx::rel(by), n)); }
        }
        if let Some(u) = usr1 {
            let d = k.deadline(u);
            if u > *tr && d < close && hard.map_or(true, |x| x > d) { c.n("shutdown changes notified"); if !told(0, d, &|m| m["type"] == "ShutDown") { lost.push(format!("of shutting down when idle since {}", Ctx::rel(u))); } }
        }
        if let Some((te, _, 0)) = exit {
            // It ended with the supervisor, which said so.
            if k.clean && k.end >= te && k.admitted.unwrap() + SEC < te && !k.slow.iter().any(|s| s.1 + SLACK > te) && !calls.iter().any(|x| x.conn == k.conn && !x.via_http() && !x.done()) {
                c.n("ends of service notified");
                if !told(0, u64::MAX, &|m| m["type"] == "ShutDown" && m["shutdown_state"] == "done") { lost.push(format!("of the shutdown at {}", Ctx::rel(te))); }
            }
        }
        // An agent that stops because no record is left has told of every deletion by then.
        if let (Some(u), false) = (usr1, c.flag("--exit") || c.flag("--wait") || c.flag("--print") || c.opt("--output").is_some()) {
            if let Some(j) = k.msgs.iter().position(|m| m.2["type"] == "ShutDown" && m.2["shutdown_state"] == "done") {
                if k.msgs[j].0 > u && hard.map_or(true, |h| h > k.msgs[j].0) {
                    let mut known: BTreeMap<String, bool> = ids.iter().map(|i| (i.clone(), false)).collect();
                    for (_, _, m) in &k.msgs[..j] { if let (Some("ProcResult" | "ProcDelete"), Some(i)) = (m["type"].as_str(), m["proc_id"].as_str()) { known.insert(i.to_string(), m["type"] == "ProcDelete"); } }
                    c.n("idle shutdowns told in full");
                    for i in known.iter().filter(|i| !i.1) { lost.push(format!("of the deletion of {} before being told at {} that it is done", i.0, Ctx::rel(k.msgs[j].0))); }
                }
            }
        }
        for l in lost { c.bad("C15", format!("the server registered with at {} was not told {}", at, l)); }
        // Nothing goes backwards.
        let mut over: BTreeMap<(String, i64), bool> = BTreeMap::new();
        let mut sd = match reg["shutdown_state"].as_str().unwrap_or("") { "active" => 0, "idling" => 1, _ => 2 };
        for (t, _, m) in &k.msgs {
            match m["type"].as_str().unwrap_or("") {
                "ProcResult" => {
                    let key = (m["proc_id"].as_str().unwrap_or("").to_string(), m["res"]["pid"].as_i64().unwrap_or(-1));
                    let run = m["res"]["state"] == "running";
                    if run && over.get(&key) == Some(&true) && !c.plan.reuse_pids { c.bad("C15", format!("{} was reported running at {} after being reported ended", key.0, Ctx::rel(*t))); }
                    over.insert(key, !run);
                }
                "ShutDown" => {
                    let n = match m["shutdown_state"].as_str().unwrap_or("") { "active" => 0, "idling" => 1, "done" => 2, _ => { c.bad("C15", format!("shutdown state {} was sent", m["shutdown_state"])); 0 } };
                    let done_early = c.flag("--exit") || c.flag("--wait") || c.flag("--print") || c.opt("--output").is_some() || usr1.map_or(true, |u| hard.map_or(false, |h| h <= u + SLACK));
                    if n == 2 && sd == 0 && !done_early && usr1.map_or(false, |u| u > k.admitted.unwrap_or(u64::MAX) && u < *t) { c.bad("C15", format!("done was sent at {}, but not before it that the agent is shutting down when idle", Ctx::rel(*t))); }
                    if n < sd { c.bad("C15", format!("shutdown went back at {} to {}", Ctx::rel(*t), m["shutdown_state"])); }
                    if n == 1 && usr1.map_or(true, |u| u > *t) || n == 2 && usr1.map_or(true, |u| u > *t) && hard.map_or(true, |u| u > *t) && !(c.flag("--exit") || c.flag("--wait") || c.flag("--print") || c.opt("--output").is_some()) { c.bad("C15", format!("shutdown state {} was sent at {} without cause", m["shutdown_state"], Ctx::rel(*t))); }
                    sd = n;
                }
                "ProcDelete" => {
                    let id = m["proc_id"].as_str().unwrap_or("").to_string();
                    if !maybe.iter().any(|d| d.1 == id && d.0 <= u64::MAX) { c.bad("C15", format!("a deletion of {} was sent at {} that nobody asked for", id, Ctx::rel(*t))); }
                }
                _ => {}
            }
        }
    }
}

/// Requests that never got their answer.
fn answers(c: &mut Ctx, conns: &[Conn], calls: &[Call]) {
    let up = c.t.main_exit.map_or(c.o.end, |e| e.0);
    let stop = c.t.sup_signals.iter().filter(|s| [2, 3, 15].contains(&s.1)).map(|s| s.0).min().unwrap_or(u64::MAX);
    for k in conns {
        if k.muddled || k.admitted.is_none() { continue; }
        // An agent that is done answers no more.
        if k.msgs.iter().any(|m| m.2["type"] == "ShutDown" && m.2["shutdown_state"] == "done") { continue; }
        let mine: Vec<&Call> = calls.iter().filter(|x| x.conn == k.conn && !x.via_http()).collect();
        c.counts.entry("agent requests".into()).and_modify(|n| *n += mine.len() as u64).or_insert(mine.len() as u64);
        let Some(x) = mine.iter().find(|x| matches!(x.out, Outc::Pending | Outc::Lost)) else { continue };
        let by = k.deadline(x.t_sent);
        let raw = mine.iter().any(|y| y.s0 <= x.s0 && matches!(y.req, Do::Raw { .. }));
        // Until the connection ended, however it did.
        if by < k.end.min(up) && by < stop && !(raw && !k.open) { c.bad("C16", format!("the request {} of {} was not answered by {}", format!("{:?}", x.req).chars().take(120).collect::<String>(), Ctx::rel(x.t_sent), Ctx::rel(by))); }
        // Ended by the agent, for no reason?
        if !k.open && k.rec.why.contains("agent") && !raw && k.end < up && k.end < stop && !k.slow.iter().any(|s| s.0 <= k.end) { c.bad("C16", format!("the agent ended the connection at {} rather than answer {}", Ctx::rel(k.end), format!("{:?}", x.req).chars().take(120).collect::<String>())); }
    }
    // Nor may it end connections otherwise.
    for k in conns {
        if k.open || k.admitted.is_none() || !k.rec.why.contains("agent") || k.muddled { continue; }
        let raw = calls.iter().any(|y| y.conn == k.conn && !y.via_http() && matches!(&y.req, Do::Raw { bytes, .. } if !bytes.starts_with("msg:") && !bytes.starts_with("hex:") && !bytes.starts_with("ping:") && !bytes.starts_with("pong:")));
        let doubt = k.admitted.unwrap() > k.rec.t_syn + 25 * SEC || k.slow.iter().any(|s| s.0 <= k.end);
        if !raw && !doubt && k.end + SEC < up.min(stop) && !c.plan.events.iter().any(|e| matches!(e.1, Evt::ServerClose { .. }) && T0 + e.0 * US <= k.end && T0 + e.0 * US + 10 * SEC >= k.end) { c.bad("C16", format!("the agent ended a good connection at {} ({})", Ctx::rel(k.end), k.rec.why)); }
    }
}
