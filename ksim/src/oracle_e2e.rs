//! What clients of the real Python server learn about processes on the real
//! agent (C21).
use crate::kernel::*;
use crate::oracle::*;


use crate::run::T0;
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// Time to reconnect and settle once faults have stopped.
const SETTLE: Time = 100 * SEC;
/// Delivery, the server's own work.
const SOON: Time = 5 * SEC;

pub fn check(c: &mut Ctx) {
    let Some(p) = c.plan.e2e.clone() else { return };
    let notes = c.o.h.borrow().e2e.clone();
    let end = c.o.end;
    // (from, to)
    let mut troubles: Vec<(Time, Time)> = notes.iter().filter(|n| n.2["k"] == "trouble").map(|n| (n.0, n.2["until"].as_u64().unwrap_or(n.0))).collect();
    let sup: Option<Time> = c.t.sup_signals.iter().filter(|s| [2, 3, 10, 15].contains(&s.1)).map(|s| s.0).min();
    let exit = c.t.main_exit.map(|e| e.0);
    troubles.extend(sup.iter().map(|s| (*s, exit.unwrap_or(*s))));
    let trouble_before = |t: Time| troubles.iter().any(|x| x.0 <= t);
    let calm = troubles.iter().map(|x| x.1).max().unwrap_or(0);
    for n in &notes {
        let k = n.2["k"].as_str().unwrap_or("");
        let s: String = n.2.to_string().chars().take(300).collect();
        match k {
            "broken" | "spins" => c.bad("C21", format!("the server breaks down at {}: {}", Ctx::rel(n.0), s)),
            "odd" => c.bad("C21", format!("a client was given something odd at {}: {}", Ctx::rel(n.0), s)),
            _ => {}
        }
    }
    if notes.iter().any(|n| n.2["k"] == "broken") { return; }
    // When the server had an open, active connection in the group.
    let mut open: Vec<(Time, Time, bool)> = vec![];
    let mut last = (T0, false, false);
    let mut gaps: Vec<(Time, Time)> = vec![];
    let mut shut: Option<Time> = None;
    for n in &notes {
        match n.2["k"].as_str() {
            Some("conns") | Some("crashed") => {
                let m: BTreeMap<String, (bool, String)> = n.2["conns"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), (v[0] == json!(true), v[1].as_str().unwrap_or("").to_string()))).collect()).unwrap_or_default();
                let usable = m.values().any(|x| x.0 && x.1 == "active");
                let any = m.values().any(|x| x.0);
                if last.1 { open.push((last.0, n.0, true)); }
                if !last.2 { gaps.push((last.0, n.0)); }
                last = (n.0, usable, any);
            }
            _ => {}
        }
    }
    if last.1 { open.push((last.0, end, true)); }
    if !last.2 { gaps.push((last.0, end)); }
    let stalls = |a: Time, b: Time| -> Time { troubles.iter().map(|x| x.1.min(b).saturating_sub(x.0.max(a))).sum() };
    for n in &notes { if n.2["k"] == "conns" { if let Some(m) = n.2["conns"].as_object() { if m.values().any(|v| v[1] != "active") { shut.get_or_insert(n.0); } } } }
    // The agent's own time for a process.
    let incs = c.t.incs.clone();
    let main = c.t.main;
    for (n, op) in p.ops.iter().enumerate() {
        let mine: Vec<&(Time, u64, Value)> = notes.iter().filter(|x| x.2["n"] == json!(n)).collect();
        let of = |k: &str| mine.iter().filter(|x| x.2["k"] == k).cloned().collect::<Vec<_>>();
        let Some(asked) = of("op").first().cloned() else { continue };
        let t0 = asked.0;
        c.n("processes asked for");
        let who = format!("client {} ({} {} at {})", n, op.api, op.id, Ctx::rel(t0));
        let results = of("result");
        let started = of("started");
        let done = of("done");
        let failed: Option<&(Time, u64, Value)> = mine.iter().find(|x| x.2["k"] == "failed" || x.2["k"] == "end").cloned();
        let tag = crate::hist::tag_of(&op.specs[&op.id]).unwrap_or_default();
        let inc = incs.iter().find(|i| i.parent == main && i.tag.as_deref() == Some(&tag) && i.exec.is_some());
        let shared = p.ops.iter().filter(|o| o.id == op.id).count() > 1;
        let deletes = shared || notes.iter().any(|x| x.2["k"] == "act" && x.2["what"] == "delete" && x.2["n"] == json!(n));
        // Lost with the server that crashed?
        let crash = notes.iter().filter(|x| x.2["k"] == "crashed").map(|x| x.0).find(|t| *t >= t0);
        let lost = crash.map_or(false, |t| started.first().map_or(true, |s| s.0 > t) && failed.map_or(true, |f| f.0 > t) && results.first().map_or(true, |r| r.0 > t));
        if let Some(f) = failed {
            let how = f.2["how"].as_str().unwrap_or("?");
            c.n(&format!("clients told {}", how));
            let at = Ctx::rel(f.0);
            let first = f.2["k"] == "failed" && started.is_empty();
            let restarted = crash.map_or(false, |t| t < f.0);
            match how {
                "NoOpenConnectionInGroup" if first => {
                    let (a, b) = (t0, f.0);
                    let best = open.iter().map(|o| { let (x, y) = (o.0.max(a), o.1.min(b)); if y > x { (y - x).saturating_sub(stalls(x, y)) } else { 0 } }).max().unwrap_or(0);
                    if best > SEC { c.bad("C21", format!("{} was told at {} that there is no open connection, though there was one for {:.3} s meanwhile", who, at, best as f64 / 1e9)); }
                    let due = t0 + op.timeout_us * US;
                    if f.0 + SEC < due { c.bad("C21", format!("{} gave up waiting for a connection at {} rather than after {} s", who, at, op.timeout_us as f64 / 1e6)); }
                    if f.0 > due + SOON + stalls(t0, f.0) { c.bad("C21", format!("{} gave up waiting for a connection only at {} rather than after {} s", who, at, op.timeout_us as f64 / 1e6)); }
                }
                "AssertionError" if first && f.2["msg"] == "" && shared => {}
                "WebSocketNotOpen" | "NotConnectedError" => if !trouble_before(f.0) { c.bad("C21", format!("{} was told at {} that the connection is not open, though it never was in trouble", who, at)); },
                "ConnectionTimeoutError" => {
                    let rt = p.reconnect_timeout_us.map(|r| r * US);
                    let ended = notes.iter().any(|x| x.2["k"] == "conns" && x.0 <= f.0 && x.2["conns"].as_object().map_or(false, |m| m.values().any(|v| v[1] == "done")));
                    // The server may have noticed later, or been slow to begin with.
                    let gone = rt.map_or(false, |r| gaps.iter().any(|g| g.0 <= f.0 && g.1.min(f.0) + SEC >= g.0 + r && g.1.min(f.0) > g.0));
                    if !ended && !gone { c.bad("C21", format!("{} was told at {} that the agent's connection timed out, but it was not gone for long enough", who, at)); }
                }
                "ProcessUnknownError" => {
                    if !deletes && !trouble_before(f.0) { c.bad("C21", format!("{} was told at {} that the process is unknown, though nothing went wrong", who, at)); }
                    if let (Some(i), false) = (inc, deletes) { c.bad("C21", format!("{} was told at {} that the process is unknown, but it ran as pid {}", who, at, i.pid)); }
                }
                "AgentMessageError" => {
                    let req = f.2["req"].as_str().unwrap_or("?");
                    if req == "ProcStartRequest" {
                        c.n("starts refused");
                        if let (Some(i), false) = (inc, shared) { c.bad("C21", format!("{} was told at {} that the start was refused ({}) but the process ran as pid {}", who, at, f.2["msg"], i.pid)); }
                    } else { c.bad("C21", format!("{} was told at {} that it is over by the answer to a {}: {}", who, at, req, f.2["msg"])); }
                }
                "deleted" => if !deletes { c.bad("C21", format!("{} was told at {} that the process was deleted, which nobody asked for", who, at)); },
                _ => { let _ = restarted; c.bad("C21", format!("{} failed at {} with {} {}", who, at, how, f.2["msg"])) }
            }
        }
        for f in of("refused") {
            let req = f.2["req"].as_str().unwrap_or("?");
            c.n("requests refused");
            let acts = notes.iter().any(|x| x.2["k"] == "act" && (x.2["n"] == json!(n) || shared) && x.0 <= f.0 && match req { "ProcSignalRequest" => x.2["what"].as_str().map_or(false, |w| w.starts_with("signal")), "ProcFdDataRequest" => x.2["what"].as_str().map_or(false, |w| w.starts_with("fd")), "ProcDeleteRequest" => x.2["what"] == "delete", _ => false });
            if !acts { c.bad("C21", format!("{} was given at {} the answer to a {} it never made: {}", who, Ctx::rel(f.0), req, f.2["msg"])); }
        }
        if lost { c.n("clients lost with the server"); continue; }
        // Gone without a word, an agent may return any time.
        let said_done = notes.iter().filter(|x| x.2["k"] == "conns" && x.0 >= started.first().map_or(u64::MAX, |s| s.0)).any(|x| x.2["conns"].as_object().map_or(false, |m| m.values().any(|v| v[1] == "done")));
        if said_done { c.n("clients of agents shut down in order"); }
        if exit.is_some() && !(said_done && crash.is_none()) && (p.reconnect_timeout_us.is_none() || crash.is_some()) { continue; }
        // In bounded time.
        let pend = inc.map(|i| i.exit.map_or(u64::MAX, |e| e.0));
        let slow = op.delay_us * US * (results.len() as u64 + of("fd").len() as u64 + 2);
        let base = calm.max(t0 + op.timeout_us * US) + SETTLE + slow;
        let due = match pend { Some(u64::MAX) => u64::MAX, Some(t) => base.max(t + SETTLE + slow), None => base };
        let resolved = done.first().map(|d| d.0).or(failed.map(|f| f.0));
        if due <= end && resolved.map_or(true, |r| r > due) {
            c.bad("C21", format!("{} has not learned by {} what became of its process ({}; last told: {})", who, Ctx::rel(due), match pend { None => "which never ran".into(), Some(t) => format!("which ended at {}", Ctx::rel(t)) }, results.last().map_or("nothing".into(), |r| r.2["v"]["state"].to_string())));
        }
        if pend == Some(u64::MAX) && base <= end && results.is_empty() && failed.is_none() { c.bad("C21", format!("{} has not heard by {} of its process, which runs", who, Ctx::rel(base))); }
        if resolved.is_some() { c.n("clients told the outcome"); }
        // Without trouble, things are quick.
        if troubles.is_empty() && op.delay_us == 0 {
            let from = open.first().map_or(u64::MAX, |o| o.0).max(t0);
            if let Some(t) = pend { if t < u64::MAX && !done.is_empty() && done[0].0 > t + 2 * SOON { c.bad("C21", format!("{} learned of its process's end at {} only at {}", who, Ctx::rel(t), Ctx::rel(done[0].0))); } }
            if from < u64::MAX && from + 2 * SOON < end && results.is_empty() && failed.is_none() { c.bad("C21", format!("{} had heard nothing by {}", who, Ctx::rel(from + 2 * SOON))); }
            // Requests are answered.
            let acted: Vec<_> = mine.iter().filter(|x| x.2["k"] == "acted" || x.2["k"] == "act" && op.then == x.2["what"].as_str().unwrap_or("")).collect();
            for a in acted { if let Some(fd) = a.2["what"].as_str().and_then(|w| w.strip_prefix("fd ")) {
                let answered = mine.iter().any(|x| x.0 >= a.0 && (x.2["k"] == "fd" && x.2["fd"] == fd) || x.2["k"] == "end" || x.0 >= a.0 && x.2["k"] == "refused");
                if !answered && a.0 + 2 * SOON < end { c.bad("C21", format!("{} asked at {} for {} and got no answer", who, Ctx::rel(a.0), fd)); }
            } }
        }
        // What it was told is one account: running, then ended, once.
        let mut over: Option<&Value> = None;
        for r in &results {
            let v = &r.2["v"];
            if let Some(o) = over { if v["state"] == "running" { c.bad("C21", format!("{} was told at {} that the process runs, after it was told that it ended", who, Ctx::rel(r.0))); } else if (o["state"] != v["state"] || o["status"] != v["status"] || o["pid"] != v["pid"]) && !shared { c.bad("C21", format!("{} was told at {} another outcome than before", who, Ctx::rel(r.0))); } }
            if v["state"] != "running" { over = Some(v); }
        }
    }
    if c.plan.prop == "C21" {
        let of = ["C01", "C02", "C03", "C06", "C07", "C08", "C09", "C11"];
        let more: Vec<String> = c.v.iter().filter(|v| of.contains(&v.prop.as_str())).map(|v| v.what.clone()).collect();
        for w in more { c.bad("C21", w); }
    }
}
