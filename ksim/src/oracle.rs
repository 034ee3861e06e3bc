//! The properties, decided over one run: what clients saw against what really
//! happened.  Every violation names the property it breaks.
use crate::hist::*;
use crate::kernel::*;
use crate::plan::*;
use crate::run::*;
use crate::spec;
use crate::truth::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// What "bounded" means for the supervisor noticing something.
pub const SLACK: Time = 5 * SEC;

#[derive(Clone, Debug)]
pub struct Viol { pub prop: String, pub what: String }

#[derive(Clone, Debug)]
pub struct Start { pub t0: Time, pub s0: u64, pub t1: Time, pub s1: u64, pub ids: BTreeMap<String, String>, pub specs: Value, pub ok: Option<bool>, pub call: Option<usize>, pub detail: String }

/// A result of one process as reported to somebody.
#[derive(Clone, Debug)]
pub struct Report { pub src: String, pub id: String, pub t0: Time, pub s0: u64, pub t1: Time, pub s1: u64, pub v: Value, pub fin: bool }

#[derive(Clone, Debug)]
enum A {
    Start { ids: BTreeMap<String, String>, ok: Option<bool>, why: bool, bad: bool },
    Del { id: String, out: Option<u8> }, // 0 ok, 1 running, 2 unknown
    Get { id: String, found: bool, pid: Option<Pid> },
    List { ids: BTreeMap<String, Option<Pid>> },
}
struct LinOp { conn: Option<usize>, s0: u64, s1: u64, t0: Time, t1: Time, a: A, name: String }

pub struct Ctx<'a> {
    pub plan: &'a Plan,
    pub o: &'a RunOut,
    pub w: &'a World,
    pub t: Truth,
    pub starts: Vec<Start>,
    /// tag -> (start index, id)
    pub tags: BTreeMap<String, (usize, String)>,
    pub reports: Vec<Report>,
    pub v: Vec<Viol>,
    /// Bytes written to each pipe or file: (cumulative end, step, time, pid).
    streams: BTreeMap<(u8, usize), (Vec<u8>, Vec<(usize, u64, Time, Pid)>)>,
    pub max_fds: i32,
    pub faulted: bool,
    pub counts: BTreeMap<String, u64>,
}
fn wall_ns(s: &str) -> Option<i128> {
    // RFC 3339, e.g. 2023-11-14T22:13:20.050000123+00:00
    let b = s.as_bytes();
    if b.len() < 20 { return None; }
    let n = |a: usize, z: usize| s.get(a..z)?.parse::<i64>().ok();
    let (y, mo, d, h, mi, se) = (n(0, 4)?, n(5, 7)?, n(8, 10)?, n(11, 13)?, n(14, 16)?, n(17, 19)?);
    let mut frac = 0i128;
    let rest = &s[19..];
    if let Some(r) = rest.strip_prefix('.') { let dg: String = r.chars().take_while(|c| c.is_ascii_digit()).collect(); frac = dg.parse::<i128>().ok()? * 10i128.pow(9 - dg.len().min(9) as u32); }
    let (y2, m2) = if mo <= 2 { (y - 1, mo + 12) } else { (y, mo) };
    let days = 365 * y2 + y2 / 4 - y2 / 100 + y2 / 400 + (153 * (m2 - 3) + 2) / 5 + d - 719469;
    Some(((days * 86400 + h * 3600 + mi * 60 + se) as i128) * 1_000_000_000 + frac)
}
/// Where a reported status differs from the kernel's text.
fn stat_diff(v: &Value, text: &[u8], walls: &[(Time, i64)]) -> Vec<String> {
    let text = String::from_utf8_lossy(text).to_string();
    let (Some(a), Some(z)) = (text.find('('), text.rfind(')')) else { return vec!["unreadable".into()] };
    let f: Vec<&str> = text[z + 1..].split_whitespace().collect();
    let n = |k: usize| f[k - 3].parse::<i128>().unwrap_or(-99);
    let mut d = vec![];
    let mut want = |k: &str, ok: bool| if !ok { d.push(format!("{}: {}", k, v[k])) };
    let num = |k: &str, x: f64| v[k].as_f64().map_or(false, |y| (x - y).abs() < 1e-6 * x.abs().max(1.0));
    want("pid", num("pid", text[..a].trim().parse().unwrap_or(-1.0)));
    want("comm", v["comm"] == text[a + 1..z]);
    want("state", v["state"] == f[0]);
    for (k, i) in [("ppid", 4), ("pgrp", 5), ("session", 6), ("flags", 9), ("minflt", 10), ("cminflt", 11), ("majflt", 12), ("cmajflt", 13), ("priority", 18), ("nice", 19), ("num_threads", 20), ("vsize", 23), ("rsslim", 25), ("processor", 39), ("rt_priority", 40), ("policy", 41), ("exit_code", 52)] { want(k, num(k, n(i) as f64)); }
    for (k, i) in [("utime", 14), ("stime", 15), ("cutime", 16), ("cstime", 17), ("guest_time", 43)] { want(k, num(k, n(i) as f64 / 100.0)); }
    want("rss", num("rss", n(24) as f64 * 4096.0));
    let tty = n(7) as u32;
    want("tty_nr", v["tty_nr"] == serde_json::json!([(tty >> 8) & 0xfff, (tty & 0xff) | ((tty >> 12) & 0xfff00)]));
    for (k, i) in [("signal", 31), ("blocked", 32), ("sigignore", 33), ("sigcatch", 34)] {
        let names: Vec<&str> = (1..32).filter(|s| n(i) >> (s - 1) & 1 == 1).map(|s| SIGNAMES[s as usize]).collect();
        // One signal has no name there.
        let got: Option<Vec<&str>> = v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect());
        want(k, got.map_or(false, |g| g.len() == names.len() && g.iter().zip(&names).all(|(g, n)| g == n || *n == SIGNAMES[16])));
    }
    want("exit_signal", v["exit_signal"] == SIGNAMES[n(38) as usize]);
    let t0 = n(22) * 10_000_000;
    want("starttime", v["starttime"].as_str().and_then(wall_ns).map_or(false, |x| walls.iter().any(|w| (x - t0 - w.1 as i128).abs() < 50_000_000)));
    d
}
/// Equal, numbers but for their last digits.
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y || match (x.as_f64(), y.as_f64()) { (Some(x), Some(y)) => (x - y).abs() <= 1e-12 * x.abs().max(y.abs()), _ => false },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| alike(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).map_or(false, |b| alike(a, b))),
        _ => a == b,
    }
}
fn b64(s: &str) -> Option<Vec<u8>> {
    let mut v = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for c in s.bytes() {
        let x = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, b'/' => 63, b'=' => break, _ => return None };
        acc = acc << 6 | x as u32;
        n += 6;
        if n >= 8 { n -= 8; v.push((acc >> n) as u8); acc &= (1 << n) - 1; }
    }
    Some(v)
}
fn lossy_matches(text: &str, data: &[u8], min: usize, max: usize) -> bool {
    let max = max.min(data.len());
    // Where in the data decoding has produced this much text.
    let (mut pos, mut out) = (0usize, 0usize);
    for c in data[..max].utf8_chunks() {
        let v = c.valid().len();
        if out + v >= text.len() { pos += text.len() - out; break; }
        out += v;
        pos += v + c.invalid().len();
        if !c.invalid().is_empty() { out += 3; }
        if out >= text.len() { break; }
    }
    (pos.saturating_sub(8)..=pos + 8).any(|k| k >= min && k <= max && String::from_utf8_lossy(&data[..k]) == text)
}

impl<'a> Ctx<'a> {
    pub fn new(plan: &'a Plan, o: &'a RunOut) -> Ctx<'a> {
        let t = Truth::new(&o.w, o.main);
        let mut c = Ctx { plan, o, w: &o.w, t, starts: vec![], tags: BTreeMap::new(), reports: vec![], v: vec![], streams: BTreeMap::new(), max_fds: if plan.max_fds > 0 { plan.max_fds } else { 600 }, faulted: !plan.faults.is_empty() || plan.max_fds > 0, counts: BTreeMap::new() };
        c.collect();
        c
    }
    pub fn bad(&mut self, prop: &str, what: String) { if !self.v.iter().any(|x| x.prop == prop && x.what == what) { self.v.push(Viol { prop: prop.into(), what }); } }
    pub fn n(&mut self, k: &str) { *self.counts.entry(k.into()).or_insert(0) += 1; }
    pub fn rel(t: Time) -> String { format!("{:.6}s", (t as i64 - T0 as i64) as f64 / 1e9) }

    fn collect(&mut self) {
        let h = self.o.h.borrow();
        let tags = |specs: &Value| -> BTreeMap<String, String> { specs.as_object().map(|m| m.iter().map(|(i, s)| (i.clone(), tag_of(s).unwrap_or_default())).collect()).unwrap_or_default() };
        if let Some(i) = &self.plan.input {
            let code = self.t.main_exit.map(|x| x.2 >> 8);
            let _ = code;
            self.starts.push(Start { t0: T0, s0: 0, t1: T0 + SEC, s1: 1, ids: tags(&i["specs"]), specs: i["specs"].clone(), ok: None, call: None, detail: String::new() });
        }
        let inf = u64::MAX;
        for (k, c) in h.calls.iter().enumerate() {
            let (t1, s1) = if c.done() { (c.t1, c.s1) } else { (inf, inf) };
            match &c.req {
                Do::Start { specs } => {
                    let (ok, detail) = match &c.out {
                        Outc::Http { status: 200, .. } => (Some(true), String::new()),
                        Outc::Http { body, .. } => (Some(false), String::from_utf8_lossy(body).to_string()),
                        // Agents ignore what they can't understand.
                        Outc::Msg(m) if m["type"] == "Ok" && spec::unparsable(specs) => (Some(false), "not understood".into()),
                        Outc::Msg(m) => (Some(m["type"] != "RequestError"), m["err"].as_str().unwrap_or("").to_string()),
                        Outc::ConnFail(_) => (Some(false), "could not connect".into()),
                        _ => (None, String::new()),
                    };
                    self.starts.push(Start { t0: c.t0, s0: c.s0, t1, s1, ids: tags(specs), specs: specs.clone(), ok, call: Some(k), detail });
                }
                _ => {}
            }
            let mut rep = |id: &str, v: &Value| self.reports.push(Report { src: format!("{} {:?}", c.client, c.req).chars().take(80).collect(), id: id.into(), t0: c.t0, s0: c.s0, t1: c.t1, s1: c.s1, v: v.clone(), fin: false });
            if matches!(c.req, Do::List | Do::Get { .. }) {
                match &c.out {
                    Outc::Http { status: 200, body, .. } => {
                        if let Ok(v) = serde_json::from_slice::<Value>(body) { if let Some(m) = v["data"]["procs"].as_object() { for (id, r) in m { rep(id, r); } } }
                    }
                    Outc::Msg(m) if m["type"] == "ProcResult" => rep(m["proc_id"].as_str().unwrap_or("?"), &m["res"]),
                    _ => {}
                }
            }
        }
        // Results the agent sent of its own accord.
        for (tm, s, conn, m) in &h.agent {
            if let AMsg::In(m) = m { if m["type"] == "ProcResult" {
                // Sent at some time before it arrived.
                let answered = h.calls.iter().any(|c| c.out == Outc::Msg(m.clone()) && c.s1 == *s);
                if !answered { self.reports.push(Report { src: format!("agent notification on connection {}", conn), id: m["proc_id"].as_str().unwrap_or("?").into(), t0: 0, s0: 0, t1: *tm, s1: *s, v: m["res"].clone(), fin: false }); }
            } }
        }
        // What clients of the Python server were given.
        if let Some(e) = &self.plan.e2e { for (tm, s, v) in &h.e2e { if v["k"] == "result" { if let Some(op) = e.ops.get(v["n"].as_u64().unwrap_or(u64::MAX) as usize) {
            self.reports.push(Report { src: format!("result given to client {}", v["n"]), id: op.id.clone(), t0: 0, s0: 0, t1: *tm, s1: *s, v: v["v"].clone(), fin: false });
        } } } }
        drop(h);
        for (i, s) in self.starts.iter().enumerate() { for (id, tag) in &s.ids { if !tag.is_empty() { self.tags.insert(tag.clone(), (i, id.clone())); } } }
        // Printed or written results.
        let ex = self.t.main_exit;
        if let Some((te, se, _)) = ex {
            let outs = self.final_outputs();
            for (src, d) in outs {
                if let Ok(Value::Object(m)) = serde_json::from_slice::<Value>(&d) { for (id, r) in m { self.reports.push(Report { src: src.clone(), id, t0: te.saturating_sub(SEC), s0: se.saturating_sub(1), t1: te, s1: se, v: r, fin: true }); } }
            }
        }
        // Streams.
        for (tm, s, r) in &self.w.rec {
            if let Rec::Write { pid, what, data, .. } = r {
                let k = match what { FdWhat::PipeW(p) => (0u8, *p), FdWhat::File { ino, .. } => (1u8, *ino), _ => continue };
                let e = self.streams.entry(k).or_default();
                e.0.extend(data);
                let n = e.0.len();
                e.1.push((n, *s, *tm, *pid));
            }
        }
    }
    pub fn flag(&self, f: &str) -> bool { self.plan.args.iter().any(|a| a == f) }
    pub fn opt(&self, f: &str) -> Option<String> { self.plan.args.iter().position(|a| a == f).and_then(|i| self.plan.args.get(i + 1)).cloned() }
    fn final_outputs(&self) -> Vec<(String, Vec<u8>)> {
        let mut v = vec![];
        if self.flag("--print") { v.push(("printed results".to_string(), self.o.stdout.clone())); }
        if let Some(p) = self.opt("--output") { if let Some(i) = self.w.fs.get(&p) { v.push(("results file".to_string(), self.w.inodes[*i].data.clone())); } }
        v
    }
    fn spec(&self, tag: &str) -> &Value { let (i, id) = &self.tags[tag]; &self.starts[*i].specs[id] }
    /// The incarnation that ran for a tag.
    fn inc(&self, tag: &str) -> Option<&Inc> { self.t.by_tag.get(tag).and_then(|v| v.iter().map(|i| &self.t.incs[*i]).find(|i| i.parent == self.t.main)) }
    /// When the supervisor was last known to be stopping: requests after this may fail.
    fn down_after(&self) -> Time { self.t.main_exit.map_or(u64::MAX, |e| e.0) }

    // ------------------------------------------------------------ everything
    pub fn check(&mut self) {
        self.alive();
        self.children();
        self.identity();
        self.starts_check();
        self.execs();
        self.pipes();
        self.signals();
        self.linear();
        self.http();
        self.timelines();
        self.growth();
        self.leaks();
        crate::oracle_agent::check(self);
        crate::oracle_e2e::check(self);
        self.pyc();
    }

    /// What calls of the Python client came to.
    fn pyc(&mut self) {
        if !self.plan.pyc { return; }
        let (py, failed, broken, calls) = { let h = self.o.h.borrow(); (h.py.clone(), h.py_failed.clone(), h.py_broken.clone(), h.calls.clone()) };
        if let Some(b) = broken { self.bad("C24", format!("the Python client broke: {}", b)); return; }
        for (t, what, e) in failed { self.bad("C24", format!("the Python client could not make a request at {}: {} {} ({})", Self::rel(t), e["err"], e["msg"], serde_json::to_string(&what).unwrap_or_default().chars().take(200).collect::<String>())); }
        for (i, r) in py {
            let c = &calls[i];
            let what = format!("{} of client {} at {}", serde_json::to_value(&c.req).map_or("?".into(), |v| format!("{} {}", v["do"].as_str().unwrap_or("?"), v["id"])), c.client, Self::rel(c.t0));
            self.n("Python calls judged");
            let Outc::Http { status, ctype, body } = &c.out else {
                if r.get("ok").is_some() { self.bad("C24", format!("{} got no answer but the Python client returned {}", what, r)); }
                continue;
            };
            if *status >= 400 {
                if r["err"] != "HTTPStatusError" || r["status"] != serde_json::json!(status) { self.bad("C24", format!("{} was answered {} but came to {} in Python", what, status, r)); }
                continue;
            }
            let ok = &r["ok"];
            if ok.is_null() { self.bad("C24", format!("{} was answered {} but failed in Python: {}", what, status, r)); continue; }
            let j: Value = serde_json::from_slice(body).unwrap_or(Value::Null);
            let good = match &c.req {
                Do::Start { specs } => specs.as_object().map_or(0, |m| m.len()) != 1 || ok["str"].as_str().map_or(false, |i| specs.get(i).is_some()),
                Do::List => alike(&ok["val"], &j["data"]["procs"]),
                Do::Get { id } => alike(&ok["val"], &j["data"]["procs"][id]),
                Do::Output { .. } => if ctype.contains("charset") { ok["str"].as_str() == Some(&String::from_utf8_lossy(body)) } else { ok["hex"].as_str() == Some(&body.iter().map(|b| format!("{:02x}", b)).collect::<String>()) },
                _ => true,
            };
            if !good { self.bad("C24", format!("{} was answered {} {} but returned {} in Python", what, ctype, show(body, 60), ok.to_string().chars().take(200).collect::<String>())); }
        }
        if self.plan.prop == "C24" {
            let of = ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C13"];
            let more: Vec<String> = self.v.iter().filter(|v| of.contains(&v.prop.as_str())).map(|v| v.what.clone()).collect();
            for w in more { self.bad("C24", w); }
        }
    }

    fn alive(&mut self) {
        let p = self.plan.prop.clone();
        if let Some(h) = &self.w.hang { let h = h.clone(); self.bad(&p, format!("the supervisor hangs: {}", h)); }
        if self.w.step_limit_hit { self.bad(&p, "the supervisor makes no progress (step limit: busy loop)".into()); }
        if let Some((t, _, st)) = self.t.main_exit {
            // Told to end before it could have taken notice.
            let early = st & 0x7f == st && self.w.first_handler.get(&st).map_or(true, |h| *h > t) && self.t.sup_signals.iter().any(|x| x.1 == st) && self.w.first_wait.map_or(true, |x| x > t);
            if early { return; }
            if st & 0x7f != 0 || st >> 8 == 101 {
                let e = String::from_utf8_lossy(&self.o.stderr).to_string();
                let l: Vec<&str> = e.lines().filter(|l| l.contains("panicked") || l.contains("called")).collect();
                self.bad(&p, format!("the supervisor died (status {}) at {} {}", st, Self::rel(t), l.join(" ").chars().take(200).collect::<String>()));
                return;
            }
            if !self.exit_expected() { self.bad(&p, format!("the supervisor exited (status {}) at {} without being told to", st, Self::rel(t))); }
        }
        if !self.t.unknown.is_empty() { let u = self.t.unknown.join(","); eprintln!("note: unmodelled calls: {}", u); }
    }
    fn exit_expected(&self) -> bool {
        if self.flag("--exit") || self.flag("--print") || self.flag("--output") || self.opt("--output").is_some() || self.flag("--wait") { return true; }
        if !self.flag("--serve") && !self.flag("--agent") { return true; }
        if self.t.sup_signals.iter().any(|s| [2, 3, 10, 15].contains(&s.1)) { return true; }
        if self.flag("--agent") && self.opt("--connect-count-max").is_some() { return true; }
        // Could not start its input.
        if self.plan.input.is_some() && self.t.main_exit.map_or(false, |e| [2 << 8, 65 << 8].contains(&e.2)) { return true; }
        false
    }

    /// A forked child never acts as a supervisor; it never lingers; all are collected.
    fn children(&mut self) {
        let incs = self.t.incs.clone();
        let main = self.t.main;
        for i in incs.iter().filter(|i| i.parent == main) {
            if !i.ran.is_empty() { self.bad("C06", format!("a child that failed to start (pid {}) carried on as a supervisor: {:?}", i.pid, i.ran)); }
            if i.exec.is_none() && i.exit.is_none() && !self.blocked_open(i.pid) && !Self::stopped(i) && self.o.end > i.t_fork + SLACK { self.bad("C06", format!("child pid {} neither executed its program nor exited", i.pid)); }
            if self.w.live(self.t.main) { if let Some((t, _, _)) = i.exit { if i.reap.is_none() && self.o.end > t + SLACK { self.bad("C01", format!("pid {} ended at {} and was never collected", i.pid, Self::rel(t))); } } }
            if let Some((_, _, by)) = i.reap { if by != main && by != 1 { self.bad("C01", format!("pid {} was collected by {}", i.pid, by)); } }
        }
    }
    fn blocked_open(&self, pid: Pid) -> bool { self.w.tasks.iter().any(|t| t.pid == pid && matches!(t.st, TState::Blocked) && t.req.as_ref().map_or(false, |r| r.op == Op::OPEN)) }

    // ------------------------------------------------------------ reports (C01, C02, C06)
    /// Candidates (tag or none, incarnation) a report about `id` with this pid can be about.
    fn candidates(&self, id: &str, pid: Pid, s1: u64) -> Vec<(String, usize)> {
        let mut v = vec![];
        for (tag, (si, i)) in &self.tags {
            if i != id || self.starts[*si].s0 > s1 || self.starts[*si].ok == Some(false) { continue; }
            if let Some(ix) = self.t.by_tag.get(tag) { for k in ix { if self.t.incs[*k].pid == pid { v.push((tag.clone(), *k)); } } }
            else {
                // Never ran: any child that never executed anything, forked in the request's time.
                for (k, inc) in self.t.incs.iter().enumerate() { if inc.pid == pid && inc.parent == self.t.main && inc.exec.is_none() && inc.s_fork >= self.starts[*si].s0 && inc.s_fork <= self.starts[*si].s1.max(s1) { v.push((tag.clone(), k)); } }
                if pid <= 0 { v.push((tag.clone(), usize::MAX)); }
            }
        }
        v
    }
    fn identity(&mut self) {
        let mut reps = self.reports.clone();
        reps.sort_by_key(|r| r.s1);
        // tag -> previous reports
        let mut seen: BTreeMap<String, Vec<Report>> = BTreeMap::new();
        let mut errs: BTreeMap<String, Vec<Report>> = BTreeMap::new();
        for r in reps {
            self.n("reports");
            let pid = r.v["pid"].as_i64().unwrap_or(-1) as Pid;
            let mut cand = self.candidates(&r.id, pid, r.s1);
            if cand.is_empty() {
                let other = self.t.by_tag.iter().find(|(_, v)| v.iter().any(|i| self.t.incs[*i].pid == pid)).map(|x| x.0.clone());
                self.bad("C01", format!("{} reported with pid {}, which is not its process ({}) [{}]", r.id, pid, other.map_or("no started process".into(), |o| format!("process of {}", o)), r.src));
                continue;
            }
            // The latest started that fits.
            cand.sort_by_key(|(tag, k)| (self.starts[self.tags[tag].0].s0, *k));
            // Several can fit when a pid and an id were used again.
            let v0 = self.v.len();
            let mut first: Vec<Viol> = vec![];
            let mut used = cand.last().unwrap().clone();
            for (n, c) in cand.iter().rev().enumerate() {
                self.report(&r, c, &seen, &mut errs);
                if self.v.len() == v0 { used = c.clone(); break; }
                let bad = self.v.split_off(v0);
                if n == 0 { first = bad; }
                if n + 1 == cand.len() { self.v.append(&mut first); }
            }
            if used.1 != usize::MAX { seen.entry(used.0).or_default().push(r); }
        }
        self.output_calls();
    }
    /// Judges a report as one about the given process.
    fn report(&mut self, r: &Report, cand: &(String, usize), seen: &BTreeMap<String, Vec<Report>>, errs: &mut BTreeMap<String, Vec<Report>>) {
        let (tag, k) = cand.clone();
        if k == usize::MAX { self.error_report(r, &tag, errs); return; }
        let inc = self.t.incs[k].clone();
        let state = r.v["state"].as_str().unwrap_or("?").to_string();
        let pid = inc.pid;
        let what = format!("{} (pid {}) [{} at {}]", r.id, pid, r.src, Self::rel(r.t1));
        match state.as_str() {
            "running" => {
                if let Some((te, _, _)) = inc.exit {
                    if te + SLACK < r.t0 { self.bad(if inc.exec.is_some() { "C01" } else { "C06" }, format!("{} reported running {:.3}s after it ended", what, (r.t0 - te) as f64 / 1e9)); }
                }
                if r.fin && self.t.sup_signals.is_empty() { self.bad("C12", format!("{} in the final results as running", what)); }
                if !r.v["status"].is_null() { self.bad("C01", format!("{} reported running with a status", what)); }
            }
            "terminated" => {
                self.n("terminated reports");
                if inc.exec.is_none() && inc.exit.map_or(true, |e| e.2 & 0x7f == 0) { self.bad("C06", format!("{} never executed its program but is reported terminated ({})", what, r.v["status"]["status"])); }
                match inc.exit {
                    None => self.bad("C01", format!("{} reported terminated but is alive", what)),
                    Some((_, se, st)) => {
                        if se > r.s1 { self.bad("C01", format!("{} reported terminated before it ended", what)); }
                        let s = &r.v["status"];
                        let (code, sig) = if st & 0x7f == 0 { (Some((st >> 8) as i64), None) } else { (None, Some((st & 0x7f) as i64)) };
                        if s["status"].as_i64() != Some(st as i64) || s["exit_code"].as_i64() != code || s["signum"].as_i64() != sig || s["core_dump"].as_bool() != Some(st & 0x80 != 0 && sig.is_some()) {
                            self.bad("C01", format!("{} ended with status {} but reported {}", what, st, s));
                        }
                        if let (Some(sg), Some(n)) = (sig, s["signal"].as_str()) { if sg < 32 && SIGNAMES[sg as usize] != n && sg != 16 { self.bad("C01", format!("{} ended by signal {} reported as {}", what, sg, n)); } }
                    }
                }
            }
            "error" => {
                if inc.exec.is_some() { self.bad("C06", format!("{} executed its program but is reported in the error state: {}", what, r.v["errors"])); }
                if r.v["errors"].as_array().map_or(true, |a| a.is_empty()) { self.bad("C06", format!("{} in the error state without a reason", what)); }
            }
            x => self.bad("C01", format!("{} reported in state {}", what, x)),
        }
        self.facts(r, &inc, &what);
        // Never back from ended to running; the end's facts never change.
        if let Some(prev) = seen.get(&tag) {
            for p in prev.clone() {
                if p.s1 < r.s0 || (p.s1 <= r.s1 && p.s0 == 0 && r.s0 == 0 && p.src == r.src) {
                    let ps = p.v["state"].as_str().unwrap_or("?");
                    if ps != "running" {
                        if state != ps { self.bad(if inc.exec.is_some() { "C01" } else { "C06" }, format!("{} reported {} after {}", what, state, ps)); }
                        else { for f in ["status", "rusage", "errors", "pid", "proc_stat"] { if p.v[f] != r.v[f] { self.bad(if f == "rusage" || f == "proc_stat" { "C23" } else { "C01" }, format!("{}: {} changed from {} to {} after the end", what, f, p.v[f], r.v[f])); } }
                            for f in ["start", "stop", "elapsed"] { if p.v["times"][f] != r.v["times"][f] && ps == "terminated" { self.bad("C23", format!("{}: {} changed after the end", what, f)); } } }
                    }
                }
            }
        }
        if inc.exec.is_some() { self.outputs(r, &tag, &inc, seen.get(&tag).cloned().unwrap_or_default()); }
    }
    /// Whether the system clock stood so at some instant in [lo, hi].
    fn stood(&self, x: i128, lo: Time, hi: Time) -> bool {
        // A reading may be as old as the supervisor's last system call.
        let ws = &self.w.walls;
        ws.iter().enumerate().any(|(k, (t, w))| {
            let a = lo.max(*t) as i128 + *w as i128;
            let b = hi.min(ws.get(k + 1).map_or(Time::MAX / 2, |n| n.0 + SEC)) as i128 + *w as i128;
            x >= a - 1000 && x <= b
        })
    }
    /// What is told of a process besides its state: its own times, resource usage and system information.
    fn facts(&mut self, r: &Report, inc: &Inc, what: &str) {
        let state = r.v["state"].as_str().unwrap_or("?");
        let (t, f0) = (&r.v["times"], inc.t_fork);
        let ended = inc.exit.filter(|e| e.1 <= r.s1);
        self.n("times judged");
        match t["start"].as_str().and_then(wall_ns) { Some(x) if self.stood(x, f0, f0 + SLACK) => {} x => self.bad("C23", format!("{} was started at {} but reports start time {} ({:?})", what, Self::rel(f0), t["start"], x)) }
        let el = t["elapsed"].as_f64().unwrap_or(-1.0);
        let sec = |a: Time, b: Time| b as f64 / 1e9 - a as f64 / 1e9;
        if state == "running" {
            let asked = r.t0.max(f0);
            if !t["stop"].is_null() { self.bad("C23", format!("{} runs but reports a stop time", what)); }
            match t["now"].as_str().and_then(wall_ns) { Some(x) if self.stood(x, asked, r.t1) => {} _ => self.bad("C23", format!("{} reports the present time as {}", what, t["now"])) }
            if el < sec(f0, asked) - 1.0 || el < 0.0 || el > sec(f0, r.t1) + 0.001 { self.bad("C23", format!("{} has run for {:.3} to {:.3} s but reports {:.3} s", what, sec(f0, asked), sec(f0, r.t1), el)); }
        } else if let (true, Some((te, _, _))) = (state == "terminated" || inc.exec.is_none(), ended) {
            match t["stop"].as_str().and_then(wall_ns) { Some(x) if self.stood(x, te, te + SLACK) => {} _ => if state == "terminated" || !t["stop"].is_null() { self.bad("C23", format!("{} ended at {} but reports stop time {}", what, Self::rel(te), t["stop"])) } }
            if state == "terminated" && (el < sec(f0, te) - 1.0 || el < 0.0 || el > sec(f0, te + SLACK)) { self.bad("C23", format!("{} ran {:.3} s but reports {:.3} s", what, sec(f0, te), el)); }
        }
        if state == "terminated" {
            let u = rusage_of(inc.pid);
            let ru = &r.v["rusage"];
            let is = |k: &str, x: f64| ru[k].as_f64().map_or(false, |y| (x - y).abs() < 1e-6);
            let us = |k: usize| u[k] as f64 + u[k + 1] as f64 * 1e-6;
            if !is("utime", us(0)) || !is("stime", us(2)) || !is("maxrss", (u[4] * 1024) as f64) || !is("minflt", u[8] as f64) || !is("majflt", u[9] as f64) || !is("nswap", u[10] as f64) || !is("inblock", u[11] as f64) || !is("oublock", u[12] as f64) || !is("nvcsw", u[16] as f64) || !is("nivcsw", u[17] as f64) { self.bad("C23", format!("{} reports resource usage {} that is not its own", what, ru)); }
        } else if state == "running" && !r.v["rusage"].is_null() { self.bad("C23", format!("{} runs but reports its resource usage", what)); }
        // What the kernel said of it, at some time it was there.
        let st = &r.v["proc_stat"];
        let over = ended.filter(|e| e.1 < r.s0 || state != "running").is_some();
        if st.is_null() {
            let at_end = inc.exit.map_or(false, |e| inc.procfiles.iter().any(|p| p.2 && p.1 >= e.1));
            if state == "terminated" && at_end && self.plan.faults.is_empty() { self.bad("C23", format!("{} reports no system information, though it was there to read at its end", what)); }
        } else {
            self.n("system information judged");
            let from = if over || r.s0 == 0 { inc.s_fork } else { r.s0 };
            let cands: Vec<&(Time, u64, bool, Vec<u8>)> = inc.procfiles.iter().filter(|p| p.2 && p.1 >= from && p.1 <= r.s1 && (state != "terminated" || ended.map_or(true, |e| p.0 + SEC >= e.0))).collect();
            let mut diff = vec![];
            if !cands.iter().any(|p| { let d = stat_diff(st, &p.3, &self.w.walls); let same = d.is_empty(); if !same { diff = d; } same }) { self.bad("C23", format!("{} reports system information that is not its own ({})", what, if cands.is_empty() { "there was none".into() } else { diff.join(", ") })); }
        }
        let sm = &r.v["proc_statm"];
        if !sm.is_null() {
            let ok = inc.procfiles.iter().any(|p| {
                let v: Vec<u64> = String::from_utf8_lossy(&p.3).split_whitespace().filter_map(|x| x.parse().ok()).collect();
                !p.2 && p.1 >= r.s0 && p.1 <= r.s1 && v.len() == 7 && [("size", v[0]), ("resident", v[1]), ("shared", v[2]), ("text", v[3]), ("data", v[5])].iter().all(|(k, x)| sm[*k] == serde_json::json!(x * 4096))
            });
            if state == "terminated" || !ok { self.bad("C23", format!("{} reports memory usage {} that is not its own", what, sm)); }
        }
    }
    fn error_report(&mut self, r: &Report, tag: &str, errs: &mut BTreeMap<String, Vec<Report>>) {
        // A process that was never even forked.
        if r.v["state"] != "error" || r.v["errors"].as_array().map_or(true, |a| a.is_empty()) { self.bad("C06", format!("{} was never created but is reported {} {}", r.id, r.v["state"], r.v["errors"])); }
        errs.entry(tag.into()).or_default().push(r.clone());
    }
    fn stream_of(&self, d: &FdDesc) -> Option<(u8, usize)> { match &d.what { FdWhat::PipeW(p) => Some((0, *p)), FdWhat::File { ino, .. } => Some((1, *ino)), _ => None } }
    /// Bounds on how much of a captured stream may be reported by a reading in [s0, s1].
    fn bounds(&self, key: (u8, usize), inc: &Inc, s0: u64, s1: u64, ended: bool) -> (usize, usize) {
        let st = match self.streams.get(&key) { Some(x) => x, None => return (0, 0) };
        let max = st.1.iter().filter(|x| x.1 <= s1).map(|x| x.0).max().unwrap_or(0);
        let mut min = if key.0 == 1 { st.1.iter().filter(|x| x.1 < s0).map(|x| x.0).max().unwrap_or(0) } else { 0 };
        if ended { min = min.max(st.1.iter().filter(|x| x.3 == inc.pid && x.1 >= inc.s_fork && inc.exit.map_or(true, |e| x.1 <= e.1)).map(|x| x.0).max().unwrap_or(0)); }
        (min.min(max), max)
    }
    fn outputs(&mut self, r: &Report, tag: &str, inc: &Inc, prev: Vec<Report>) {
        let sp = self.spec(tag).clone();
        let ended = r.v["state"] != "running";
        let what = format!("{} (pid {}) [{} at {}]", r.id, inc.pid, r.src, Self::rel(r.t1));
        let e = inc.exec.clone().unwrap();
        let names: BTreeSet<String> = spec::fds_of(&sp).iter().filter_map(|f| spec::fd_num(&f.0)).map(spec::fd_name).collect();
        let got: BTreeSet<String> = r.v["fds"].as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default();
        if names != got { self.bad("C02", format!("{} reports descriptors {:?} instead of {:?}", what, got, names)); }
        for (name, kind, p) in spec::fds_of(&sp) {
            let fd = match spec::fd_num(&name) { Some(f) => f, None => continue };
            let f = &r.v["fds"][spec::fd_name(fd)];
            if kind != "capture" { if !f.is_null() { self.bad("C02", format!("{} reports output for {} which is not captured", what, name)); } continue; }
            let d = match e.fds.get(&fd) { Some(d) => d.clone(), None => continue };
            // Closed or replaced by a later spec: judged by wiring only.
            let key = match self.stream_of(&d) { Some(k) => k, None => continue };
            if self.later_replaced(&sp, fd) { continue; }
            // Final results are read after the last process ends, not just before the supervisor does.
            let rs0 = if r.fin { r.s0.min(self.t.incs.iter().filter(|i| i.parent == self.t.main).filter_map(|i| i.exit.map(|e| e.1)).max().unwrap_or(0)) } else { r.s0 };
            let (mut min, max) = self.bounds(key, inc, rs0, r.s1, ended);
            for q in &prev { if q.s1 < r.s0 { min = min.max(len_of(&q.v["fds"][spec::fd_name(fd)])); } }
            let data = self.streams.get(&key).map(|s| s.0.clone()).unwrap_or_default();
            let attached = p["attached"].as_bool().unwrap_or(true);
            let enc = p["encoding"].as_str();
            let prop = if r.fin && self.plan.prop == "C12" { "C12" } else { "C02" };
            let ty = f["type"].as_str().unwrap_or("none").to_string();
            let want = if !attached { "detached" } else if enc.is_some() { "text" } else { "data" };
            if ty != want { self.bad(prop, format!("{} reports {} as {} instead of {}", what, name, ty, want)); continue; }
            self.n("outputs");
            if max > 0 { self.n("outputs nonempty"); }
            match want {
                "detached" => { let l = f["length"].as_i64().unwrap_or(-1); if l < min as i64 || l > max as i64 { self.bad(prop, format!("{} reports {} bytes on {}; {} to {} written", what, l, name, min, max)); } }
                "text" => { let x = f["text"].as_str().unwrap_or(""); if !lossy_matches(x, &data, min.min(max), max) { self.bad(prop, format!("{} reports text ({} bytes) on {} that is not what was written ({} to {} bytes)", what, x.len(), name, min, max)); } }
                _ => { let x = f["data"].as_str().and_then(b64); match x { Some(x) if x.len() <= max && x.len() >= min && data[..x.len()] == x[..] => {} x => self.bad(prop, format!("{} reports data ({:?} bytes) on {} that is not what was written ({} to {} bytes)", what, x.map(|x| x.len()), name, min, max)) } }
            }
        }
    }
    fn later_replaced(&self, _sp: &Value, _fd: i32) -> bool { false }
    fn output_calls(&mut self) {
        let h = self.o.h.borrow();
        let calls = h.calls.clone();
        drop(h);
        for c in &calls {
            let Do::Output { id, fd, start, stop } = &c.req else { continue };
            if !c.done() { continue; }
            // Which process was it?  The one under this id when the request was handled.
            let tags: Vec<String> = self.tags.iter().filter(|(_, (si, i))| i == id && self.starts[*si].s0 <= c.s1 && self.starts[*si].ok != Some(false)).map(|x| x.0.clone()).collect();
            if tags.len() != 1 { continue; }
            let Some(inc) = self.inc(&tags[0]).cloned() else { continue };
            let Some(e) = inc.exec.clone() else { continue };
            let sp = self.spec(&tags[0]).clone();
            let Some(n) = spec::fd_num(fd) else { continue };
            let cap = spec::fds_of(&sp).into_iter().find(|f| spec::fd_num(&f.0) == Some(n));
            let what = format!("{} output of {} {} [{}..{:?} at {}]", c.client, id, fd, start, stop, Self::rel(c.t1));
            let known = self.starts[self.tags[&tags[0]].0].s1 < c.s0;
            let deleted = calls.iter().any(|d| matches!(&d.req, Do::Delete { id: i } if i == id) && d.s0 < c.s1);
            let got: Option<Vec<u8>> = match &c.out {
                Outc::Http { status: 200, body, .. } => Some(body.clone()),
                Outc::Msg(m) if m["type"] == "ProcFdData" => Some(m["data"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default()),
                _ => None,
            };
            let Some((_, kind, p)) = cap else { if got.as_ref().map_or(false, |g| !g.is_empty()) { self.bad("C02", format!("{} answered with data for a descriptor not in the spec", what)); } continue };
            if kind != "capture" { if got.map_or(false, |g| !g.is_empty()) { self.bad("C02", format!("{} answered with data for a descriptor not captured", what)); } continue; }
            let Some(d) = e.fds.get(&n) else { continue };
            let Some(key) = self.stream_of(d) else { continue };
            let Some(g) = got else {
                let sane = *start >= 0 && stop.map_or(true, |s| s >= *start);
                if known && !deleted && sane && c.how.plain() { self.bad("C02", format!("{} was refused: {:?}", what, c.out).chars().take(300).collect()); }
                continue;
            };
            let ended_before = self.reports.iter().any(|r| r.id == *id && r.s1 < c.s0 && r.v["state"] != "running");
            let (mut min, max) = self.bounds(key, &inc, c.s0, c.s1, ended_before);
            for r in &self.reports { if r.id == *id && r.s1 < c.s0 { min = min.max(len_of(&r.v["fds"][spec::fd_name(n)])); } }
            let data = self.streams.get(&key).map(|s| s.0.clone()).unwrap_or_default();
            let min = min.min(max);
            let (a, zmin, zmax) = (*start as usize, stop.map_or(min, |s| (s.max(0) as usize).min(min)), stop.map_or(max, |s| (s.max(0) as usize).min(max)));
            if *start < 0 { if !g.is_empty() { self.bad("C02", format!("{} answered with data for a negative range", what)); } continue; }
            let (lmin, lmax) = (zmin.saturating_sub(a), zmax.saturating_sub(a));
            self.n("output requests");
            if g.len() < lmin || g.len() > lmax || (!g.is_empty() && data[a..a + g.len()] != g[..]) { self.bad("C02", format!("{} answered with {} bytes that are not that part of the output ({} to {} bytes expected)", what, g.len(), lmin, lmax)); }
            if let Outc::Msg(m) = &c.out {
                let (ms, me) = (m["start"].as_i64().unwrap_or(-1), m["stop"].as_i64().unwrap_or(-1));
                if !g.is_empty() && (ms != *start || me != *start + g.len() as i64) { self.bad("C02", format!("{} answered with {} bytes labelled {}..{}", what, g.len(), ms, me)); }
                let enc = p["encoding"].as_str();
                if m["encoding"].as_str() != enc { self.bad("C02", format!("{} labelled with encoding {}", what, m["encoding"])); }
            } else if let Outc::Http { ctype, .. } = &c.out {
                let want = if p["encoding"].is_string() { "text/plain; charset=utf-8" } else { "application/octet-stream" };
                if ctype != want { self.bad("C02", format!("{} has content type {} instead of {}", what, ctype, want)); }
            }
        }
    }

    // ------------------------------------------------------------ starts (C07, C06)
    fn stopping_at(&self) -> Time { self.t.sup_signals.iter().filter(|s| [2, 3, 10, 15].contains(&s.1)).map(|s| s.0).min().unwrap_or(u64::MAX) }
    fn starts_check(&mut self) {
        let starts = self.starts.clone();
        let dupe: BTreeSet<String> = self.t.by_tag.iter().filter(|(_, v)| v.iter().filter(|i| self.t.incs[**i].parent == self.t.main).count() > 1).map(|x| x.0.clone()).collect();
        for t in &dupe { self.bad("C07", format!("the process with tag {} was started more than once", t)); }
        let stray: Vec<Inc> = self.t.incs.iter().filter(|i| i.parent == self.t.main && i.exec.is_some() && i.tag.as_ref().map_or(true, |t| !self.tags.contains_key(t))).cloned().collect();
        for i in stray { self.bad("C07", format!("pid {} runs {:?}, which nobody asked for", i.pid, i.exec.as_ref().map(|e| String::from_utf8_lossy(&e.argv.join(&b' ')).to_string()))); }
        for s in &starts {
            let inv = spec::invalid(&s.specs);
            let ran: Vec<String> = s.ids.values().filter(|t| self.t.by_tag.contains_key(*t)).cloned().collect();
            let name = format!("start of {:?} at {}", s.ids.keys().collect::<Vec<_>>(), Self::rel(s.t0));
            if s.ok == Some(false) && !ran.is_empty() { self.bad("C07", format!("{} was refused ({}) but started {:?}", name, s.detail, ran)); }
            if let Some(why) = &inv {
                if s.ok == Some(true) { self.bad("C07", format!("{} was accepted although invalid: {}", name, why)); }
                if !ran.is_empty() { self.bad("C07", format!("{} is invalid ({}) but started {:?}", name, why, ran)); }
            }
            if s.call.is_none() {
                // Input specs: exit status tells.
                let dead = self.t.main_exit.map_or(false, |e| e.2 >> 8 == 65 || e.2 >> 8 == 2);
                if inv.is_none() && dead && !self.nul_in(&s.specs) { self.bad("C07", format!("valid input specs were refused: {}", String::from_utf8_lossy(&self.o.stderr).chars().take(200).collect::<String>())); }
                if inv.is_some() && !dead && self.plan.input.as_ref().map_or(false, |i| i["specs"].as_object().map_or(false, |m| !m.is_empty())) { self.bad("C07", format!("invalid input specs were accepted: {:?}", inv)); }
            }
            let accepted = s.ok == Some(true) || (s.call.is_none() && inv.is_none() && self.t.main_exit.map_or(true, |e| e.2 == 0));
            if accepted {
                self.n("accepted starts");
                for (id, tag) in &s.ids {
                    if tag.is_empty() || self.t.by_tag.contains_key(tag) { continue; }
                    // Never ran: it must have been reported as an error, or not reported again
                    // (until something else is started by that id).
                    let next = starts.iter().filter(|o| o.s0 > s.s0 && o.ok != Some(false) && o.ids.contains_key(id)).map(|o| o.s0).min().unwrap_or(u64::MAX);
                    let sp = &s.specs[id];
                    let reps: Vec<&Report> = self.reports.iter().filter(|r| r.id == *id && r.s0 > s.s0 && r.s1 < next).collect();
                    let err = reps.iter().any(|r| r.v["state"] == "error");
                    let reported_late = reps.iter().any(|r| r.t0 > s.t1.saturating_add(SLACK));
                    let last = reps.last().map(|r| r.v["state"].as_str().unwrap_or("?").to_string());
                    let why = self.why_not(sp);
                    let may = spec::wiring(self.plan, sp, self.max_fds, &self.shared_paths()).may_fail;
                    // Killed before it could execute its program.
                    let killed = self.t.incs.iter().any(|i| i.parent == self.t.main && i.exec.is_none() && i.exit.map_or(false, |e| e.2 & 0x7f != 0) && (reps.iter().any(|r| r.v["pid"].as_i64() == Some(i.pid as i64)) || reps.is_empty() && i.s_fork >= s.s0 && i.s_fork <= s.s1));
                    // Or stopped.
                    let stopped = self.t.incs.iter().any(|i| i.parent == self.t.main && i.exec.is_none() && Self::stopped(i) && (reps.iter().any(|r| r.v["pid"].as_i64() == Some(i.pid as i64)) || i.s_fork >= s.s0 && i.s_fork <= s.s1));
                    if killed || stopped { continue; }
                    if why.is_none() && !may && !self.faulted { self.bad("C07", format!("{}: {} was accepted but never ran (last reported {:?})", name, id, last)); }
                    if reported_late && !err { let l = last.clone(); self.bad("C06", format!("{}: {} could not be started ({}) but was never reported as an error (last {:?})", name, id, why.unwrap_or("injected fault".into()), l)); }
                }
            }
            for (id, tag) in &s.ids {
                if let Some(inc) = self.inc(tag).cloned() {
                    let sp = s.specs[id].clone();
                    if let Some(why) = self.why_not(&sp) { self.bad("C06", format!("{} ran (pid {}) although {}", id, inc.pid, why)); }
                }
            }
        }
    }
    fn nul_in(&self, specs: &Value) -> bool { spec::nul(specs) }
    fn shared_paths(&self) -> BTreeSet<String> {
        // Paths named by more than one process: their state depends on order.
        let mut n: BTreeMap<String, u32> = BTreeMap::new();
        for s in &self.starts { if let Some(m) = s.specs.as_object() { for sp in m.values() { let mut mine = BTreeSet::new(); for (_, k, p) in spec::fds_of(sp) { if k == "file" { mine.insert(p["path"].as_str().unwrap_or("").to_string()); } } for p in mine { *n.entry(p).or_insert(0) += 1; } } } }
        if let Some(o) = self.opt("--output") { *n.entry(o).or_insert(0) += 2; }
        n.into_iter().filter(|x| x.1 > 1).map(|x| x.0).collect()
    }
    /// Why a process cannot be started (None: it can).
    fn why_not(&self, sp: &Value) -> Option<String> {
        if spec::nul(sp) { return Some("it has a NUL character in its specification".into()); }
        let exe = spec::exe(sp)?;
        if let Some(r) = self.opt("--restrict-exe") { if r != exe { return Some(format!("executables are restricted to {}", r)); } }
        if !self.w.exes.contains_key(&exe) { return Some(format!("{} is not an executable", exe)); }
        let w = spec::wiring(self.plan, sp, self.max_fds, &self.shared_paths());
        w.must_fail
    }

    // ------------------------------------------------------------ exec state (C03, C04)
    fn execs(&mut self) {
        let penv: BTreeMap<Vec<u8>, Vec<u8>> = { let mut m: BTreeMap<Vec<u8>, Vec<u8>> = self.plan.env.iter().map(|(k, v)| (k.clone().into_bytes(), unhex(v))).collect(); m.entry(b"PATH".to_vec()).or_insert(b"/bin".to_vec()); m };
        let shared = self.shared_paths();
        let mut pipe_use: BTreeMap<(String, i32), Vec<(bool, usize, String)>> = BTreeMap::new();
        let mut of_use: BTreeMap<usize, (String, i32, spec::Src)> = BTreeMap::new();
        for (tag, (si, id)) in self.tags.clone() {
            let Some(inc) = self.inc(&tag).cloned() else { continue };
            let sp = self.starts[si].specs[&id].clone();
            let e = inc.exec.clone().unwrap();
            self.n("execs");
            let what = format!("{} (pid {})", id, inc.pid);
            // C04
            if Some(e.path.clone()) != spec::exe(&sp) { self.bad("C04", format!("{} executed {} instead of {:?}", what, e.path, spec::exe(&sp))); }
            if e.argv != spec::argv(&sp) { self.bad("C04", format!("{} was given arguments {:?} instead of {}", what, e.argv.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>(), sp["argv"])); }
            let want = spec::env(&sp, &penv);
            let mut got: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
            let mut dup = false;
            for x in &e.env { let k = x.iter().position(|c| *c == b'=').unwrap_or(x.len()); if got.insert(x[..k].to_vec(), x.get(k + 1..).unwrap_or(b"").to_vec()).is_some() { dup = true; } }
            if got != want || dup {
                let d: Vec<String> = want.iter().filter(|(k, v)| got.get(*k) != Some(*v)).map(|(k, _)| format!("-{}", String::from_utf8_lossy(k))).chain(got.iter().filter(|(k, v)| want.get(*k) != Some(*v)).map(|(k, _)| format!("+{}", String::from_utf8_lossy(k)))).collect();
                self.bad("C04", format!("{} was given a wrong environment: {}", what, d.join(" ")));
            }
            if e.sid != inc.pid { self.bad("C04", format!("{} runs in session {} and not its own", what, e.sid)); }
            if e.ignored != 0 { self.bad("C04", format!("{} starts with signals ignored (mask {:x})", what, e.ignored)); }
            if e.blocked != 0 { self.bad("C04", format!("{} starts with signals blocked (mask {:x})", what, e.blocked)); }
            if let Some(r) = self.opt("--restrict-exe") { if e.path != r { self.bad("C04", format!("{} executed {} although restricted to {}", what, e.path, r)); } }
            // C03
            let wi = spec::wiring(self.plan, &sp, self.max_fds, &shared);
            if wi.must_fail.is_some() { continue; }
            for (fd, (n, src)) in &wi.fds {
                match e.fds.get(fd) {
                    None => self.bad("C03", format!("{}: descriptor {} is closed instead of {:?}", what, fd, src)),
                    Some(d) => {
                        self.n("descriptors");
                        if let Err(x) = spec::matches(src, d, self.w, self.t.main) { self.bad("C03", format!("{}: descriptor {}: {}", what, fd, x)); continue; }
                        for (fd2, (n2, _)) in wi.fds.range(fd + 1..) { if let Some(d2) = e.fds.get(fd2) { if (n == n2) != (d.of == d2.of) && !matches!(src, spec::Src::Inherited(_)) { self.bad("C03", format!("{}: descriptors {} and {} {} the same open file", what, fd, fd2, if n == n2 { "are not" } else { "are" })); } } }
                        match (src, &d.what) {
                            (spec::Src::PipeW { fd: f }, FdWhat::PipeW(p)) => pipe_use.entry((format!("{}/{}", si, id), *f)).or_default().push((true, *p, what.clone())),
                            (spec::Src::PipeR { id: i, fd: f }, FdWhat::PipeR(p)) => pipe_use.entry((format!("{}/{}", si, i), *f)).or_default().push((false, *p, what.clone())),
                            (spec::Src::Capture { .. }, _) => {
                                if let Some((o, of, _)) = of_use.get(&d.of) { if *o != tag { let (o, of) = (o.clone(), *of); self.bad("C03", format!("{}: descriptor {} captures into descriptor {} of {}", what, fd, of, o)); } }
                                of_use.insert(d.of, (tag.clone(), *fd, src.clone()));
                            }
                            _ => {}
                        }
                    }
                }
            }
            for (fd, d) in &e.fds { if !wi.fds.contains_key(fd) { self.bad("C03", format!("{} starts with an extra descriptor {} ({:?})", what, fd, d.what)); } }
        }
        for ((wid, fd), v) in &pipe_use {
            let ps: BTreeSet<usize> = v.iter().map(|x| x.1).collect();
            if ps.len() > 1 { self.bad("C05", format!("the ends of the pipe from {} descriptor {} are different pipes: {:?}", wid, fd, v)); }
        }
        let mut by_pipe: BTreeMap<usize, BTreeSet<(String, i32)>> = BTreeMap::new();
        for (k, v) in &pipe_use { for x in v { by_pipe.entry(x.1).or_default().insert(k.clone()); } }
        for (p, ks) in by_pipe { if ks.len() > 1 { self.bad("C05", format!("pipe {} is shared by several connections: {:?}", p, ks)); } }
    }

    // ------------------------------------------------------------ pipes (C05)
    /// The process with this pid at a step.
    fn inc_at(&self, pid: Pid, step: u64) -> Option<usize> { self.t.incs.iter().rposition(|i| i.pid == pid && i.s_fork <= step) }
    fn descends(&self, i: usize, root: &Inc) -> bool {
        let mut p = Some(i);
        while let Some(k) = p {
            let x = &self.t.incs[k];
            if x.pid == root.pid && x.s_fork == root.s_fork { return true; }
            p = x.up;
        }
        false
    }
    fn pipes(&mut self) {
        for (tag, (si, id)) in self.tags.clone() {
            let Some(inc) = self.inc(&tag).cloned() else { continue };
            let sp = self.starts[si].specs[&id].clone();
            for (name, kind, p) in spec::fds_of(&sp) {
                let Some(fd) = spec::fd_num(&name) else { continue };
                if kind != "pipe-read" { continue; }
                let Some(d) = inc.exec.as_ref().unwrap().fds.get(&fd) else { continue };
                let FdWhat::PipeR(pi) = d.what else { continue };
                self.n("pipes");
                let wid = p["proc_id"].as_str().unwrap_or("");
                let wtag = self.starts[si].ids.get(wid).cloned().unwrap_or_default();
                let winc = self.inc(&wtag).cloned();
                let written = self.streams.get(&(0, pi)).map(|s| s.0.clone()).unwrap_or_default();
                // Only the writer (and its descendants) write to it.
                if let Some(s) = self.streams.get(&(0, pi)) { for x in s.1.clone() { if let Some(wi) = &winc { if !self.inc_at(x.3, x.1).map_or(false, |k| self.descends(k, wi)) { self.bad("C05", format!("pid {} wrote to the pipe from {} to {}", x.3, wid, id)); } } } }
                let mut got: Vec<u8> = vec![];
                for (_, _, r) in &self.w.rec { if let Rec::ReadData { what: FdWhat::PipeR(q), data, .. } = r { if *q == pi { got.extend(data); } } }
                if got.len() > written.len() || written[..got.len()] != got[..] { self.bad("C05", format!("the data read from the pipe from {} to {} is not what was written", wid, id)); }
                if !got.is_empty() { self.n("pipes with data"); }
                // End of file only when all holders are gone and everything was read.
                let holders_gone: Option<u64> = match &winc {
                    None => Some(0),
                    Some(wi) => {
                        let ds: Vec<&Inc> = self.t.incs.iter().enumerate().filter(|(k, _)| self.descends(*k, wi)).map(|x| x.1).collect();
                        if ds.iter().all(|i| i.exit.is_some()) { ds.iter().map(|i| i.exit.unwrap().1).max() } else { None }
                    }
                };
                let closes = self.program_closes(&wtag);
                let wstart = winc.is_some();
                for (t, s, r) in &self.w.rec {
                    if let Rec::ReadEof { pid, what: FdWhat::PipeR(q), .. } = r { if *q == pi {
                        let early = match holders_gone { None => true, Some(x) => *s < x };
                        if early && wstart && !closes { let m = format!("{} (pid {}) saw end of file at {} on the pipe from {} whose writer still had it open", id, pid, Self::rel(*t), wid); self.v.push(Viol { prop: "C05".into(), what: m }); break; }
                        let total: usize = self.streams.get(&(0, pi)).map(|x| x.1.iter().filter(|x| x.1 <= *s).map(|x| x.0).max().unwrap_or(0)).unwrap_or(0);
                        let read: usize = self.w.rec.iter().filter(|y| y.1 <= *s).map(|y| if let Rec::ReadData { what: FdWhat::PipeR(z), data, .. } = &y.2 { if *z == pi { data.len() } else { 0 } } else { 0 }).sum();
                        if read != total { let m = format!("{} saw end of file on the pipe from {} after {} of {} bytes", id, wid, read, total); self.v.push(Viol { prop: "C05".into(), what: m }); }
                        break;
                    } }
                }
                // Nobody waits for ever on a pipe whose other end is gone.
                let writers: Vec<Pid> = self.w.procs.values().filter(|q| q.state == PState::Live && q.fds.values().any(|e| matches!(self.w.of(e.of).kind, OKind::PipeW(z) if z == pi))).map(|q| q.pid).collect();
                let readers: Vec<Pid> = self.w.procs.values().filter(|q| q.state == PState::Live && q.fds.values().any(|e| matches!(self.w.of(e.of).kind, OKind::PipeR(z) if z == pi))).map(|q| q.pid).collect();
                let lw: Vec<Pid> = writers.iter().copied().filter(|x| winc.as_ref().map_or(false, |wi| self.inc_at(*x, u64::MAX).map_or(false, |k| self.descends(k, wi)))).collect();
                let lr: Vec<Pid> = readers.iter().copied().filter(|x| self.inc_at(*x, u64::MAX).map_or(false, |k| self.descends(k, &inc))).collect();
                if self.settled() {
                    for r in &lr { if self.waiting(*r, pi, true) && lw.is_empty() && !writers.is_empty() { self.bad("C05", format!("{} (pid {}) waits for data on the pipe from {}, all of whose writers are gone (write end still held by {:?})", id, r, wid, writers)); } }
                    for x in &lw { if self.waiting(*x, pi, false) && lr.is_empty() && !readers.is_empty() { self.bad("C05", format!("{} (pid {}) is blocked writing to the pipe to {}, all of whose readers are gone (read end still held by {:?})", wid, x, id, readers)); } }
                }
            }
            // The writer side when the reader never ran.
            for (name, kind, _) in spec::fds_of(&sp) {
                let Some(fd) = spec::fd_num(&name) else { continue };
                if kind != "pipe-write" { continue; }
                let Some(d) = inc.exec.as_ref().unwrap().fds.get(&fd) else { continue };
                let FdWhat::PipeW(pi) = d.what else { continue };
                let rtag = self.starts[si].specs.as_object().unwrap().iter().find(|(_, s)| spec::fds_of(s).iter().any(|(_, k, p)| k == "pipe-read" && p["proc_id"].as_str() == Some(&id) && p["fd"].as_str().and_then(spec::fd_num) == Some(fd))).map(|(i, _)| self.starts[si].ids[i].clone()).unwrap_or_default();
                if self.inc(&rtag).is_some() || !self.settled() { continue; }
                if self.w.live(inc.pid) && self.waiting(inc.pid, pi, false) { self.bad("C05", format!("{} (pid {}) is blocked writing to a pipe whose reader never ran", id, inc.pid)); }
            }
        }
    }
    fn settled(&self) -> bool {
        let last = self.w.rec.iter().rev().find(|r| matches!(r.2, Rec::Exit { .. } | Rec::Exec { .. } | Rec::Fork { .. } | Rec::ReadData { .. } | Rec::Write { .. })).map_or(0, |r| r.0);
        self.o.end > last + 2 * SEC && self.w.hang.is_none() && !self.w.step_limit_hit
    }
    /// Sent a signal that stops it.
    fn stopped(i: &Inc) -> bool { i.signals.iter().any(|s| (19..=22).contains(&s.3)) }
    fn waiting(&self, pid: Pid, pipe: usize, read: bool) -> bool {
        let p = self.w.proc(pid);
        if let PKind::Script(vm) = &p.kind { if let Some((fd, rd)) = vm.wait { if rd == read { if let Some(e) = p.fds.get(&fd) { return match self.w.of(e.of).kind { OKind::PipeR(z) => read && z == pipe, OKind::PipeW(z) => !read && z == pipe, _ => false }; } } } }
        false
    }
    fn program_closes(&self, tag: &str) -> bool { fn any(p: &crate::vm::Program) -> bool { p.0.iter().any(|o| match o { crate::vm::POp::Close { .. } => true, crate::vm::POp::Fork { prog } => any(prog), _ => false }) } self.plan.programs.get(tag).map_or(false, any) }

    // ------------------------------------------------------------ signals (C08)
    fn signals(&mut self) {
        let h = self.o.h.borrow();
        let calls = h.calls.clone();
        drop(h);
        let mut budget: Vec<(usize, bool)> = vec![];
        // Signals the supervisor sent to its processes.
        let mut sent: Vec<(Time, u64, usize, i32, bool)> = vec![];
        for (k, i) in self.t.incs.iter().enumerate() { for s in &i.signals { if s.2 == self.t.main { sent.push((s.0, s.1, k, s.3, false)); } } }
        sent.sort_by_key(|x| x.1);
        for x in self.t.stray.clone() { self.bad("C08", format!("the supervisor sent signal {} to pid {} at {}, which is not (or no longer) a process of its own", x.3, x.2, Self::rel(x.0))); }
        for (ci, c) in calls.iter().enumerate() {
            let Do::Signal { id, sig } = &c.req else { continue };
            if !matches!(c.out, Outc::ConnFail(_)) { budget.push((ci, false)); }
            if !c.done() { continue; }
            self.n("signal requests");
            let ok = match &c.out { Outc::Http { status, .. } => *status == 200, Outc::Msg(m) => m["type"] != "RequestError" && m["type"] != "ProcUnknown", _ => false };
            let num = signum(sig);
            let valid = num.map_or(false, |n| (1..=64).contains(&n));
            let what = format!("signal {} for {} [{} at {}]", sig, id, c.client, Self::rel(c.t1));
            let tags: Vec<String> = self.tags.iter().filter(|(_, (si, i))| i == id && self.starts[*si].s0 <= c.s1 && self.starts[*si].ok != Some(false)).map(|x| x.0.clone()).collect();
            if ok && !(valid || num == Some(0)) { self.bad("C08", format!("{}: invalid, but accepted", what)); }
            if tags.is_empty() { if ok { self.bad("C08", format!("{}: unknown process, but accepted", what)); } continue; }
            if tags.len() > 1 { if ok && valid && !sent.iter().any(|x| x.1 >= c.s0 && x.1 <= c.s1 && x.3 == num.unwrap()) { self.bad("C08", format!("{}: accepted but nothing was sent", what)); } continue; }
            let inc = self.inc(&tags[0]).cloned();
            let st = &self.starts[self.tags[&tags[0]].0];
            let (started, deleted) = (st.s1 < c.s0, calls.iter().any(|d| matches!(&d.req, Do::Delete { id: i } if i == id) && d.s0 < c.s1 && !matches!(d.out, Outc::Http { status: 400, .. })));
            match inc {
                None => { let failed_known = self.reports.iter().any(|r| r.id == *id && r.s1 < c.s0 && r.v["state"] == "error"); if ok && failed_known { self.bad("C08", format!("{}: it never started, but accepted", what)); } }
                Some(i) => {
                    let delivered = sent.iter().any(|x| x.1 >= c.s0 && x.1 <= c.s1 && self.t.incs[x.2].pid == i.pid && self.t.incs[x.2].s_fork == i.s_fork && x.3 == num.unwrap_or(-1));
                    if ok && valid && !delivered { self.bad("C08", format!("{}: accepted but not sent to pid {}", what, i.pid)); }
                    let collected = i.reap.map_or(false, |r| r.1 < c.s0);
                    if ok && collected { self.bad("C08", format!("{}: the process had been collected, but accepted", what)); }
                    let alive_all = i.exit.map_or(true, |e| e.1 > c.s1);
                    if started && !deleted && valid && alive_all && i.exec.as_ref().map_or(false, |e| e.s < c.s0) && !ok && !self.main_fault("KILL") { self.bad("C08", format!("{}: the process was running, but refused: {:?}", what, c.out).chars().take(250).collect()); }
                    if ok && valid { self.n("signals delivered"); }
                }
            }
        }
        // Everything sent was asked for.  (Whose process it is may be unknown if it never ran.)
        let mut sent = sent;
        sent.sort_by_key(|x| self.t.incs[x.2].tag.is_none());
        for (t, s, k, sig, _) in sent {
            let pid = self.t.incs[k].pid;
            let tag = self.t.incs[k].tag.clone();
            let asked = budget.iter_mut().find(|(ci, used)| { let c = &calls[*ci]; let Do::Signal { id, sig: g } = &c.req else { return false }; !*used && c.s0 <= s && (s <= c.s1 || !c.done()) && signum(g) == Some(sig) && tag.as_ref().map_or(true, |t| self.tags.get(t).map_or(false, |x| x.1 == *id)) });
            if let Some(b) = asked { b.1 = true; continue; }
            let terms: Vec<Time> = self.t.sup_signals.iter().filter(|x| x.1 == 15 || x.1 == 2).map(|x| x.0).collect();
            let (term, quit) = (terms.first().copied(), self.t.sup_signals.iter().find(|x| x.1 == 3).map(|x| x.0));
            // Each of the two signals shuts down anew.
            let again = terms.iter().any(|x| sig == 15 && t >= *x && t <= *x + SLACK || sig == 9 && t + 1000 >= *x + 60 * SEC && t <= *x + 60 * SEC + 2 * SLACK);
            if again { continue; }
            if sig == 15 && term.map_or(false, |x| t >= x && t <= x + SLACK) { continue; }
            if sig == 9 && term.map_or(false, |x| t + 1000 >= x + 60 * SEC && t <= x + 60 * SEC + 2 * SLACK) { continue; }
            if sig == 9 && quit.map_or(false, |x| t >= x && t <= x + SLACK) { continue; }
            let p = if term.is_some() || quit.is_some() { "C10" } else { "C08" };
            self.bad(p, format!("the supervisor sent signal {} to pid {} ({:?}) at {} without being asked to", sig, pid, tag, Self::rel(t)));
        }
    }
    pub fn main_fault(&self, op: &str) -> bool { self.plan.faults.iter().any(|f| f.op == op && f.who != "script") }

    // ------------------------------------------------------------ linearizability (C07, C09)
    fn linear(&mut self) {
        let h = self.o.h.borrow();
        let calls = h.calls.clone();
        drop(h);
        let stop_from = self.stopping_at();
        let exitmode = self.flag("--exit") || self.flag("--print") || self.opt("--output").is_some() || self.flag("--wait");
        let mut ops: Vec<LinOp> = vec![];
        // An agent deals with its connection's requests in order.
        let fifo = |c: &Call| if c.via_http() { None } else { Some(c.conn) };
        for s in &self.starts.clone() {
            let mut ok = s.ok;
            if s.call.is_none() { if self.t.main_exit.map_or(false, |e| e.2 != 0) && s.ids.is_empty() { continue; } ok = if self.t.main_exit.map_or(false, |e| e.2 >> 8 == 65 || e.2 >> 8 == 2) { Some(false) } else { Some(true) }; if ok == Some(false) { continue; } }
            let bad = spec::invalid(&s.specs).is_some();
            if let Some(k) = s.call { if matches!(calls[k].out, Outc::ConnFail(_)) { continue; } }
            // May be refused because of shutting down.
            let why = s.t1 >= stop_from || self.nul_in(&s.specs) || (exitmode && s.t1.saturating_add(SEC) > self.down_after());
            ops.push(LinOp { conn: s.call.and_then(|k| fifo(&calls[k])), s0: s.s0, s1: s.s1, t0: s.t0, t1: s.t1, a: A::Start { ids: s.ids.clone(), ok, why, bad }, name: format!("start {:?} at {}", s.ids.keys().collect::<Vec<_>>(), Self::rel(s.t0)) });
        }
        for c in &calls {
            let done = c.done();
            if matches!(c.out, Outc::ConnFail(_)) { continue; }
            let (t1, s1) = if done { (c.t1, c.s1) } else { (u64::MAX, u64::MAX) };
            let a = match (&c.req, &c.out) {
                (Do::Delete { id }, Outc::Http { status, .. }) => A::Del { id: id.clone(), out: Some(match status { 200 => 0, 404 => 2, _ => 1 }) },
                (Do::Delete { id }, Outc::Msg(m)) => A::Del { id: id.clone(), out: Some(match m["type"].as_str().unwrap_or("") { "ProcDelete" => 0, "ProcUnknown" => 2, _ => 1 }) },
                (Do::Delete { id }, _) => A::Del { id: id.clone(), out: None },
                (Do::Get { id }, Outc::Http { status: 200, body, .. }) => { let v: Value = serde_json::from_slice(body).unwrap_or(Value::Null); A::Get { id: id.clone(), found: true, pid: v["data"]["procs"][id]["pid"].as_i64().map(|x| x as Pid) } }
                (Do::Get { id }, Outc::Http { status: 404, .. }) => A::Get { id: id.clone(), found: false, pid: None },
                (Do::Get { id }, Outc::Msg(m)) => A::Get { id: id.clone(), found: m["type"] == "ProcResult", pid: m["res"]["pid"].as_i64().map(|x| x as Pid) },
                (Do::Signal { id, .. }, Outc::Msg(m)) if m["type"] == "ProcUnknown" => A::Get { id: id.clone(), found: false, pid: None },
                (Do::Signal { id, .. }, Outc::Msg(m)) if m["type"] == "Ok" => A::Get { id: id.clone(), found: true, pid: None },
                (Do::Signal { id, .. } | Do::Output { id, .. }, Outc::Http { status: 404, .. }) => A::Get { id: id.clone(), found: false, pid: None },
                (Do::Signal { id, .. }, Outc::Http { status: 200, .. }) => A::Get { id: id.clone(), found: true, pid: None },
                (Do::Output { id, .. }, Outc::Http { status: 200, .. }) => A::Get { id: id.clone(), found: true, pid: None },
                (Do::Output { id, .. }, Outc::Msg(m)) if m["type"] != "RequestError" => A::Get { id: id.clone(), found: m["type"] == "ProcFdData", pid: None },
                (Do::List, Outc::Http { status: 200, body, .. }) => { let v: Value = serde_json::from_slice(body).unwrap_or(Value::Null); A::List { ids: v["data"]["procs"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v["pid"].as_i64().map(|x| x as Pid))).collect()).unwrap_or_default() } }
                (Do::List, Outc::Msg(m)) if m["type"] == "ProcidList" => A::List { ids: m["proc_ids"].as_array().map(|a| a.iter().map(|x| (x.as_str().unwrap_or("?").to_string(), None)).collect()).unwrap_or_default() },
                _ => continue,
            };
            ops.push(LinOp { conn: fifo(c), s0: c.s0, s1, t0: c.t0, t1, a, name: format!("{} {:?} at {}", c.client, c.req, Self::rel(c.t0)).chars().take(120).collect() });
        }
        // Registrations list the records.
        { let h = self.o.h.borrow(); for r in &h.attempts { for (t, s, k, m) in &h.agent { if *k == r.conn { if let AMsg::In(v) = m { if v["type"] == "Register" {
            ops.push(LinOp { conn: None, s0: r.s_http, s1: *s, t0: r.t_syn, t1: *t, a: A::List { ids: v["proc_ids"].as_array().map(|a| a.iter().map(|x| (x.as_str().unwrap_or("?").to_string(), None)).collect()).unwrap_or_default() }, name: format!("registration at {}", Self::rel(*t)) });
        } } } } } }
        self.counts.insert("linearized operations".into(), ops.len() as u64);
        ops.sort_by_key(|o| o.s0);
        // Each process's facts used for deletions.
        let n = ops.len();
        if n == 0 { return; }
        let mut done = vec![false; n];
        let mut memo: HashSet<(Vec<bool>, BTreeMap<String, String>)> = HashSet::new();
        let mut best = (0usize, String::new(), String::new());
        let mut budget = 200_000u32;
        let okk = self.lin_dfs(&ops, &mut done, &BTreeMap::new(), &mut memo, &mut best, &mut budget, 0);
        if !okk && budget > 0 {
            let stuck = best.1.clone();
            let p = if stuck.contains("start") { "C07" } else if stuck.contains("Delete") { "C09" } else if self.plan.prop == "C07" { "C07" } else { "C09" };
            self.bad(p, format!("no order of the requests explains the answers; after {} requests the records would be {} but: {}", best.0, best.2, stuck));
        }
    }
    fn lin_dfs(&self, ops: &[LinOp], done: &mut Vec<bool>, st: &BTreeMap<String, String>, memo: &mut HashSet<(Vec<bool>, BTreeMap<String, String>)>, best: &mut (usize, String, String), budget: &mut u32, depth: usize) -> bool {
        if *budget == 0 { return false; }
        *budget -= 1;
        if ops.iter().zip(done.iter()).all(|(o, d)| *d || o.s1 == u64::MAX) { return true; }
        if !memo.insert((done.clone(), st.clone())) { return false; }
        let lim = ops.iter().zip(done.iter()).filter(|(_, d)| !**d).map(|(o, _)| o.s1).min().unwrap_or(u64::MAX);
        let mut stuck = vec![];
        for i in 0..ops.len() {
            if done[i] || ops[i].s0 > lim { continue; }
            let o = &ops[i];
            if o.conn.is_some() && (0..i).any(|j| !done[j] && ops[j].conn == o.conn) { continue; }
            match self.lin_apply(o, st) {
                Err(e) => stuck.push(format!("{}: {}", o.name, e)),
                Ok(next) => for ns in next {
                    done[i] = true;
                    if self.lin_dfs(ops, done, &ns, memo, best, budget, depth + 1) { return true; }
                    done[i] = false;
                },
            }
        }
        if depth >= best.0 && !stuck.is_empty() { *best = (depth, stuck.join("; ").chars().take(400).collect(), format!("{:?}", st.keys().collect::<Vec<_>>())); }
        false
    }
    /// All states the operation may lead to from `st`, or why it cannot happen there.
    fn lin_apply(&self, o: &LinOp, st: &BTreeMap<String, String>) -> Result<Vec<BTreeMap<String, String>>, String> {
        let same = || Ok(vec![st.clone()]);
        match &o.a {
            A::Start { ids, ok, why, bad } => {
                let dup = ids.keys().find(|i| st.contains_key(*i));
                let mut done = st.clone();
                for (i, t) in ids { done.insert(i.clone(), t.clone()); }
                match ok {
                    Some(true) => if let Some(d) = dup { Err(format!("accepted although {} is in use", d)) } else if *bad { Err("accepted although invalid".into()) } else { Ok(vec![done]) },
                    Some(false) => if dup.is_some() || *why || *bad { same() } else { Err("refused for no reason".into()) },
                    None => if dup.is_some() || *bad { same() } else { Ok(vec![done, st.clone()]) },
                }
            }
            A::Del { id, out } => {
                let mut gone = st.clone();
                gone.remove(id);
                let tag = st.get(id);
                let can = tag.map_or(false, |t| self.may_be_ended(t, o.s1));
                let must = tag.map_or(false, |t| self.must_be_ended(t, o.t0));
                match out {
                    Some(0) => if tag.is_none() { Err("deleted although unknown".into()) } else if !can { Err("deleted although running".into()) } else { Ok(vec![gone]) },
                    Some(1) => if tag.is_none() { Err("refused as running although unknown".into()) } else if must { Err("refused although ended".into()) } else { same() },
                    Some(_) => if tag.is_some() { Err("unknown although present".into()) } else { same() },
                    None => if can { Ok(vec![gone, st.clone()]) } else { same() },
                }
            }
            A::Get { id, found, pid } => match (st.get(id), found) {
                (None, true) => Err("found although unknown".into()),
                (Some(_), false) => Err("unknown although present".into()),
                (None, false) => same(),
                (Some(t), true) => if pid.map_or(true, |p| self.pid_fits(t, p, o.s1)) { same() } else { Err(format!("pid {:?} is not that of the process present", pid)) },
            },
            A::List { ids } => {
                if ids.keys().ne(st.keys()) { return Err(format!("lists {:?}", ids.keys().collect::<Vec<_>>())); }
                for (i, p) in ids { if let Some(p) = p { if !self.pid_fits(&st[i], *p, o.s1) { return Err(format!("lists {} with pid {}, not that of the process present", i, p)); } } }
                same()
            }
        }
    }
    fn pid_fits(&self, tag: &str, pid: Pid, s1: u64) -> bool { let Some((_, id)) = self.tags.get(tag) else { return true }; self.candidates(id, pid, s1).iter().any(|c| c.0 == tag) }
    fn may_be_ended(&self, tag: &str, s1: u64) -> bool { match self.inc(tag) { Some(i) => i.exit.map_or(false, |e| e.1 <= s1), None => true } }
    fn must_be_ended(&self, tag: &str, t0: Time) -> bool { match self.inc(tag) { Some(i) => i.exit.map_or(false, |e| e.0 + SLACK < t0), None => self.starts[self.tags[tag].0].t1.saturating_add(SLACK) < t0 && self.never_ran_and_gone(tag) } }
    fn never_ran_and_gone(&self, tag: &str) -> bool { let s = &self.starts[self.tags[tag].0]; self.t.incs.iter().filter(|i| i.parent == self.t.main && i.exec.is_none() && i.s_fork >= s.s0 && i.s_fork <= s.s1).all(|i| i.exit.is_some()) }

    // ------------------------------------------------------------ HTTP (C13)
    fn http(&mut self) {
        let h = self.o.h.borrow();
        let calls = h.calls.clone();
        drop(h);
        let down = self.down_after();
        let aborted: BTreeSet<usize> = self.w.aborted.iter().copied().collect();
        for c in calls.iter().filter(|c| c.via_http()) {
            if aborted.contains(&c.conn) { continue; }
            let what = format!("{} {:?} at {}", c.client, c.req, Self::rel(c.t0)).chars().take(160).collect::<String>();
            let well = !matches!(c.req, Do::Raw { .. }) && c.how.abandon.is_none() && c.how.abandon_us.is_none() && !c.how.half_close;
            let serving = down > c.t0.saturating_add(SEC) && self.flag("--serve") && self.w.listened.map_or(c.t0 > T0 + SLACK, |l| c.t0 > l);
            match &c.out {
                Outc::Pending => if well && serving && self.o.end > c.t0 + crate::http::TIMEOUT { self.bad("C13", format!("{} has no answer", what)); },
                Outc::Timeout => if well && serving && down > c.t1 && c.t_sent > 0 && c.t1 > c.t_sent + 20 * SEC { self.bad("C13", format!("{} got no answer in {} s", what, crate::http::TIMEOUT / SEC)); },
                Outc::ConnFail(e) => if serving && down > c.t1 + SEC { self.bad("C13", format!("{} could not connect: {}", what, errname(*e))); },
                Outc::Lost => if well && serving && down > c.t1 + SEC { self.bad("C13", format!("{}: connection lost without an answer", what)); },
                Outc::Http { status, body, ctype } => {
                    self.n("http answers");
                    let js: Option<Value> = serde_json::from_slice(body).ok();
                    let isout = matches!(c.req, Do::Output { .. }) && *status == 200;
                    if !isout && !matches!(c.req, Do::Raw { .. }) && (js.is_none() || ctype != "application/json") { self.bad("C13", format!("{} answered {} with a body that is not JSON", what, status)); }
                    if *status >= 500 { self.bad("C13", format!("{} answered with status {}", what, status)); }
                    let allowed: &[u16] = match &c.req {
                        Do::List => &[200], Do::Get { .. } => &[200, 404], Do::Delete { .. } => &[200, 400, 404, 409], Do::Signal { .. } => &[200, 400, 404, 409], Do::Output { .. } => &[200, 400, 404], Do::Start { .. } => &[200, 201, 400, 409, 503],
                        Do::Raw { expect, .. } => match expect { 400 => &[400, 404, 405, 408, 411, 413, 414, 415, 422, 431, 501, 505], 404 => &[404], 405 => &[405], 200 => &[200], _ => &[200, 400, 404, 405, 408, 411, 413, 414, 415, 422, 431, 501, 505] },
                        _ => &[200],
                    };
                    if !allowed.contains(status) { self.bad("C13", format!("{} answered with status {} {}", what, status, String::from_utf8_lossy(body).chars().take(120).collect::<String>())); }
                    if let Some(v) = js { if !matches!(c.req, Do::Output { .. } | Do::Raw { .. }) { let ok = *status < 300; if ok != v.get("data").is_some() || ok == v.get("errors").is_some() { self.bad("C13", format!("{} answered {} with body {}", what, status, v.to_string().chars().take(100).collect::<String>())); } } }
                }
                _ => {}
            }
        }
        if self.flag("--serve") && self.t.main_exit.is_none() && !self.o.obs_done { self.bad("C13", "the final observer could not finish its requests".into()); }
    }

    // ------------------------------------------------------------ shutdown and run-to-completion (C10, C11, C12)
    fn running_at(&self, s: u64) -> Vec<&Inc> { self.t.incs.iter().filter(|i| i.parent == self.t.main && i.exec.is_some() && i.s_fork < s && i.exit.map_or(true, |e| e.1 > s)).collect() }
    fn step_at(&self, t: Time) -> u64 { self.w.rec.iter().filter(|r| r.0 <= t).map(|r| r.1).max().unwrap_or(0) }
    /// When the last record was deleted (none: records remain).
    fn last_delete(&self) -> Option<Time> { self.emptied(false) }
    /// The same, counting only starts known to have happened.
    fn emptied(&self, definite: bool) -> Option<Time> {
        let h = self.o.h.borrow();
        // Counted, for a start may overlap the deletion that makes room for it.
        let mut live: BTreeMap<String, i64> = BTreeMap::new();
        let mut ev: Vec<(Time, bool, String)> = vec![];
        for s in &self.starts { if (if definite { s.ok == Some(true) || s.call.is_none() } else { s.ok != Some(false) }) && spec::invalid(&s.specs).is_none() { for i in s.ids.keys() { ev.push((s.t0, true, i.clone())); } } }
        for c in &h.calls { if let Do::Delete { id } = &c.req { let ok = match &c.out { Outc::Http { status, .. } => *status == 200, Outc::Msg(m) => m["type"] == "ProcDelete", _ => false }; if ok { ev.push((c.t1, false, id.clone())); } } }
        drop(h);
        ev.sort_by_key(|e| (e.0, !e.1));
        let mut last = T0;
        for (t, add, id) in ev { if add { *live.entry(id).or_insert(0) += 1; } else { *live.entry(id).or_insert(0) -= 1; last = t; } }
        if live.values().all(|n| *n <= 0) { Some(last) } else { None }
    }
    fn timelines(&mut self) {
        let sigs = self.t.sup_signals.clone();
        let exit = self.t.main_exit;
        let first = |s: &[i32]| sigs.iter().find(|x| s.contains(&x.1)).map(|x| x.0);
        let term = first(&[15, 2]);
        let quit = first(&[3]);
        let usr1 = first(&[10]);
        let agent_fail = self.flag("--agent") && self.opt("--connect-count-max").is_some();
        let completion = self.flag("--exit") || self.flag("--print") || self.opt("--output").is_some();
        let waitmode = self.flag("--wait");
        let booted = T0 + 50 * MS;
        // --- C10
        let kill_due = match (term, quit) { (Some(t), Some(q)) => Some((t + 60 * SEC).min(q)), (Some(t), None) => Some(t + 60 * SEC), (None, Some(q)) => Some(q), _ => None };
        if term.is_some() || quit.is_some() {
            self.n("shutdown runs");
            let incs = self.t.incs.clone();
            let mine: Vec<&Inc> = incs.iter().filter(|i| i.parent == self.t.main).collect();
            // A signal that the system refused to send isn't the supervisor's fault.
            let refused: usize = self.plan.faults.iter().filter(|f| f.op == "KILL" && f.who == "main").map(|f| f.count as usize).sum();
            let (mut unterm, mut unkill) = (vec![], vec![]);
            if let Some(t) = term {
                for i in mine.iter().filter(|i| i.exec.as_ref().map_or(false, |e| e.t < t) && i.exit.map_or(true, |e| e.0 > t + SLACK) && i.t_fork + 10 * MS < t) {
                    let n = i.signals.iter().filter(|s| s.2 == self.t.main && s.3 == 15 && s.0 >= t).count();
                    if n == 0 && exit.map_or(true, |e| e.0 > t + SLACK) && quit.map_or(true, |q| q > t + SLACK) { unterm.push(i.pid); }
                }
            }
            if unterm.len() > refused { self.bad("C10", format!("running pid {} was not sent SIGTERM within 5 s of the shutdown signal", unterm.last().unwrap())); }
            if let Some(k) = kill_due {
                for i in mine.iter().filter(|i| i.exec.as_ref().map_or(false, |e| e.t < k.saturating_sub(10 * MS)) && i.exit.map_or(true, |e| e.0 > k + SLACK)) {
                    if exit.map_or(true, |e| e.0 > k) && !i.signals.iter().any(|s| s.2 == self.t.main && s.3 == 9 && s.0 + 1000 >= k) { unkill.push(i.pid); }
                }
                if unkill.len() > refused { self.bad("C10", format!("pid {} is still running but was not sent SIGKILL when due at {}", unkill.last().unwrap(), Self::rel(k))); }
                let main = self.t.main;
                for i in mine.iter() { for s in i.signals.iter().filter(|s| s.2 == main && s.3 == 9) { if s.0 + 1000 < k && !self.asked(9, s.1) { self.bad("C10", format!("pid {} was sent SIGKILL at {}, before it was due at {}", i.pid, Self::rel(s.0), Self::rel(k))); } } }
            }
            // When it must have stopped at the latest, and may at the earliest.
            let starts_after = self.starts.iter().any(|s| s.ok != Some(false) && s.t1 > term.unwrap_or(u64::MAX).min(quit.unwrap_or(u64::MAX)));
            let sig0 = term.unwrap_or(u64::MAX).min(quit.unwrap_or(u64::MAX));
            let none_running: Option<Time> = { let v: Vec<Option<Time>> = mine.iter().filter(|i| i.exec.is_some() || i.exit.is_some()).map(|i| i.exit.map(|e| e.0)).collect(); if v.iter().any(|x| x.is_none()) { None } else { Some(v.into_iter().flatten().max().unwrap_or(T0)) } };
            let calm = none_running.map_or(u64::MAX, |t| t.max(sig0)).min(kill_due.unwrap_or(u64::MAX));
            let emptied = self.last_delete().map(|t| t.max(sig0).max(booted));
            let latest = (calm + 5 * SEC).min(emptied.unwrap_or(u64::MAX)).saturating_add(SLACK);
            let latest = if starts_after { latest.max(kill_due.unwrap_or(0) + 5 * SEC + SLACK) } else { latest };
            // A deletion, or a start, that wasn't answered may have happened or not.
            let lost_delete = { let h = self.o.h.borrow(); let b = h.calls.iter().any(|c| matches!(c.req, Do::Delete { .. }) && !c.done() && !matches!(c.out, Outc::ConnFail(_))); b };
            let mut earliest = if emptied.is_some() || lost_delete || self.emptied(true).is_some() { sig0.min(calm + 5 * SEC) } else { calm + 5 * SEC };
            if starts_after || usr1.is_some() || completion || waitmode || agent_fail { earliest = 0; }
            if self.o.end > latest {
                match exit {
                    None => self.bad("C10", format!("told to shut down at {}, the supervisor should have stopped by {} but runs at {}", Self::rel(sig0), Self::rel(latest), Self::rel(self.o.end))),
                    Some((te, _, _)) => { if te > latest { self.bad("C10", format!("told to shut down at {}, the supervisor should have stopped by {} but stopped at {}", Self::rel(sig0), Self::rel(latest), Self::rel(te))); } }
                }
            }
            if let Some((te, _, st)) = exit {
                if te + 20 * MS < earliest { self.bad("C10", format!("told to shut down at {}, the supervisor stopped at {}, before {}", Self::rel(sig0), Self::rel(te), Self::rel(earliest))); }
                if st != 0 && st & 0x7f == 0 && st >> 8 != 101 && !completion && !agent_fail && st >> 8 != 65 && st >> 8 != 2 { self.bad("C10", format!("told to shut down, the supervisor exited with status {}", st >> 8)); }
            }
        }
        // --- C11
        if let (Some(u), None, None) = (usr1, term, quit) {
            self.n("idle shutdown runs");
            let emptied = self.last_delete();
            let u = u.max(booted);
            if !completion && !waitmode && !agent_fail {
                match (exit, emptied) {
                    (None, Some(e)) => { let due = e.max(u) + SLACK; if self.o.end > due { self.bad("C11", format!("idle since {}, but the supervisor has not stopped by {}", Self::rel(e.max(u)), Self::rel(self.o.end))); } }
                    (Some((te, _, st)), Some(e)) => {
                        if te > e.max(u) + SLACK { self.bad("C11", format!("idle since {}, but the supervisor stopped only at {}", Self::rel(e.max(u)), Self::rel(te))); }
                        // A deletion is answered after it takes effect.
                        let first_possible = self.last_delete_call_start();
                        if st >> 8 == 0 && st & 0x7f == 0 && te < first_possible.max(usr1.unwrap()) { self.bad("C11", format!("the supervisor stopped at {} with processes still on record", Self::rel(te))); }
                    }
                    (Some((te, _, st)), None) => { let lost_delete = { let h = self.o.h.borrow(); let b = h.calls.iter().any(|c| matches!(c.req, Do::Delete { .. }) && !c.done() && c.t0 <= te); b }; if st & 0x7f == 0 && st >> 8 != 101 && !lost_delete && self.emptied(true).is_none() { self.bad("C11", format!("the supervisor stopped at {} with processes still on record", Self::rel(te))); } }
                    _ => {}
                }
            }
            for s in self.starts.clone() { if s.ok == Some(true) && s.t0 > usr1.unwrap() + SLACK && usr1.unwrap() > booted { self.bad("C11", format!("a start at {} was accepted while shutting down", Self::rel(s.t0))); } }
            let incs = self.t.incs.clone();
            for i in &incs { for s in &i.signals { if s.2 == self.t.main && !self.asked(s.3, s.1) { self.bad("C11", format!("pid {} was sent signal {} by the idling supervisor", i.pid, s.3)); } } }
        }
        // --- C12
        if completion && sigs.iter().all(|s| ![2, 3, 10, 15].contains(&s.1)) {
            let ends: Vec<Option<Time>> = self.t.incs.iter().filter(|i| i.parent == self.t.main).map(|i| i.exit.map(|e| e.0)).collect();
            let inv = self.starts.iter().any(|s| s.call.is_none() && spec::invalid(&s.specs).is_some());
            if !inv && !(self.t.main_exit.map_or(false, |e| [2, 65].contains(&(e.2 >> 8)))) {
                self.n("completion runs");
                let last = ends.iter().map(|e| e.unwrap_or(u64::MAX)).max().unwrap_or(booted);
                // Results are written in small pieces, each of which takes its time.
                let written = self.o.stdout.len() + self.opt("--output").and_then(|p| self.w.fs.get(&p).map(|i| self.w.inodes[*i].data.len())).unwrap_or(0);
                let due = last.max(booted).saturating_add(SLACK + written as u64 * 2 * self.plan.sched.base_us * US + if written > 0 { self.w.stalled } else { 0 });
                match exit {
                    None => if last != u64::MAX && self.o.end > due { self.bad("C12", format!("no process runs since {} but the supervisor has not exited", Self::rel(last))); },
                    Some((te, _, st)) => {
                        if te < last && st & 0x7f == 0 && st >> 8 != 101 && !self.faulted { let n = ends.iter().filter(|e| e.map_or(true, |x| x > te)).count(); if n > 0 { self.bad("C12", format!("the supervisor exited (status {}) at {} while {} processes were running", st >> 8, Self::rel(te), n)); } }
                        if last != u64::MAX && te > due { self.bad("C12", format!("no process runs since {} but the supervisor exited only at {}", Self::rel(last), Self::rel(te))); }
                    }
                }
            }
        }
        if completion { self.final_results(); }
        if waitmode && !completion && sigs.iter().all(|s| ![2, 3, 10, 15].contains(&s.1)) {
            let e = self.last_delete();
            match (exit, e) {
                (Some((te, _, st)), None) => { let lost_delete = { let h = self.o.h.borrow(); let b = h.calls.iter().any(|c| matches!(c.req, Do::Delete { .. }) && !c.done() && c.t0 <= te); b }; if st == 0 && !lost_delete && self.emptied(true).is_none() { self.bad("C12", format!("--wait: the supervisor exited at {} with processes on record", Self::rel(te))); } }
                (None, Some(e)) => if self.o.end > e.max(booted) + SLACK { self.bad("C12", format!("--wait: all records deleted at {} but the supervisor runs on", Self::rel(e))); },
                (Some((te, _, _)), Some(e)) => { if te > e.max(booted) + SLACK { self.bad("C12", format!("--wait: all records deleted at {} but the supervisor exited at {}", Self::rel(e), Self::rel(te))); } if te < self.last_delete_call_start() { self.bad("C12", format!("--wait: the supervisor exited at {} with processes on record", Self::rel(te))); } }
                _ => {}
            }
        }
    }
    fn last_delete_call_start(&self) -> Time {
        let h = self.o.h.borrow();
        let t = h.calls.iter().filter(|c| matches!(c.req, Do::Delete { .. }) && match &c.out { Outc::Http { status, .. } => *status == 200, Outc::Msg(m) => m["type"] == "ProcDelete", _ => false }).map(|c| c.t0).max().unwrap_or(T0);
        t
    }
    fn asked(&self, sig: i32, step: u64) -> bool { let h = self.o.h.borrow(); let b = h.calls.iter().any(|c| matches!(&c.req, Do::Signal { sig: g, .. } if signum(g) == Some(sig)) && c.s0 <= step && (!c.done() || c.s1 >= step)); b }
    fn final_results(&mut self) {
        let Some((te, _, st)) = self.t.main_exit else { return };
        if st & 0x7f != 0 || st >> 8 == 101 { return; }
        let inv = self.starts.iter().any(|s| s.call.is_none() && spec::invalid(&s.specs).is_some());
        let code = st >> 8;
        if inv || code == 65 || code == 2 { return; }
        let expect: BTreeSet<String> = self.expected_final();
        let mut outs = vec![];
        if self.flag("--print") { outs.push(("printed results", self.o.stdout.clone())); }
        if let Some(p) = self.opt("--output") { outs.push(("results file", self.w.fs.get(&p).map(|i| self.w.inodes[*i].data.clone()).unwrap_or_default())); }
        let logged = !self.o.stderr.is_empty();
        for (n, d) in outs {
            let v: Result<Value, _> = serde_json::from_slice(&d);
            match v {
                Ok(Value::Object(m)) => {
                    let got: BTreeSet<String> = m.keys().cloned().collect();
                    if self.plan.http.is_empty() && self.plan.server.is_none() && got != expect && code == 0 { self.bad("C12", format!("{} cover {:?} instead of {:?}", n, got, expect)); }
                    let deletes = self.plan.http.iter().any(|c| c.ops.iter().any(|o| matches!(o.what, Do::Delete { .. } | Do::DeleteAll)));
                    if !self.plan.http.is_empty() && self.plan.server.is_none() && !deletes && code == 0 {
                        let must: BTreeSet<String> = self.starts.iter().filter(|s| s.call.is_none() || s.ok == Some(true)).flat_map(|s| s.ids.keys().cloned()).collect();
                        let lost: Vec<&String> = must.iter().filter(|i| !got.contains(*i)).collect();
                        if !lost.is_empty() { self.bad("C12", format!("{} leave out {:?}", n, lost)); }
                    }
                    self.n("final results");
                    if code == 0 && n == "printed results" && !d.ends_with(b"\n") { self.bad("C12", "printed results are cut short".into()); }
                }
                _ => if code == 0 { self.bad("C12", format!("exit status 0 at {} but the {} are incomplete ({} bytes)", Self::rel(te), n, d.len())); } else if !logged { self.bad("C12", format!("{} could not be written (exit status {}) but nothing was logged", n, code)); },
            }
        }
        let iof = self.plan.stdout != SinkPlan::default() || self.plan.files.iter().any(|f| f.limit.is_some() || f.write_err.is_some() || Some(&f.path) == self.opt("--output").as_ref()) || self.faulted || self.opt("--output").map_or(false, |p| !p.starts_with("/out/") || p[5..].contains('/'));
        if code != 0 && !iof { self.bad("C12", format!("exit status {} although nothing failed", code)); }
    }
    fn expected_final(&self) -> BTreeSet<String> { self.starts.iter().filter(|s| s.call.is_none()).flat_map(|s| s.ids.keys().cloned()).collect() }

    // ------------------------------------------------------------ leaks (C22)
    /// Memory in use at rest, after each of many equal rounds.
    fn growth(&mut self) {
        if self.plan.mode != "cycles" || !self.w.live(self.t.main) { return; }
        let m = &self.w.marks;
        // Nothing was left each time: the last look before each.
        let h = self.o.h.borrow();
        let clean = m.iter().all(|x| h.calls.iter().rev().find(|c| c.t1 != 0 && c.t1 < x.0 && matches!(c.req, Do::List) && c.status() == 200).map_or(false, |c| c.json().map_or(false, |j| j["data"]["procs"].as_object().map_or(false, |p| p.is_empty()))) && x.3 == 0);
        drop(h);
        if std::env::var_os("HEAP").is_some() { eprintln!("{} clean {} {:?}", self.plan.seed, clean, m.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>()); }
        if !clean || m.len() < 12 { return; }
        self.n("rounds compared");
        let (mut up, mut down) = (0, 0);
        for k in 3..m.len() { if m[k].1 > m[k - 1].1 { up += 1; } else if m[k].1 < m[k - 1].1 { down += 1; } }
        let (a, b) = (m[2].1, m[m.len() - 1].1);
        let n = m.len() - 3;
        // While as many connections are open.
        let same = m.iter().skip(2).all(|x| x.2 == m[2].2);
        if same && up * 4 >= n * 3 && down * 8 <= n && b > a { self.bad("C22", format!("memory in use grows with every round, though nothing is left of it: {} bytes more after {} rounds", b - a, n)); }
        let fds: Vec<usize> = m.iter().skip(2).map(|x| x.4).collect();
        if fds.windows(2).filter(|w| w[1] > w[0]).count() * 4 >= n * 3 { self.bad("C22", format!("descriptors held grow with every round, though nothing is left of it: {:?}", fds)); }
    }
    fn leaks(&mut self) {
        if !self.w.live(self.t.main) || self.w.hang.is_some() || self.w.step_limit_hit { return; }
        let kinds = fd_kinds(self.w, self.t.main);
        // What may be held: per process still on record, its captures.
        let h = self.o.h.borrow();
        let last = h.calls.iter().rev().find(|c| c.client == format!("h{}", self.plan.http.len().saturating_sub(1)) && matches!(c.req, Do::List) && c.status() == 200).and_then(|c| c.json().map(|j| (c.t1, j)));
        let obs = self.plan.http.last().map_or(false, |c| c.observer);
        // Only if nothing was started after (or during) the last look.
        let t0 = h.calls.iter().rev().find(|c| c.client == format!("h{}", self.plan.http.len().saturating_sub(1)) && matches!(c.req, Do::List) && c.status() == 200).map_or(0, |c| c.t0);
        let later = h.calls.iter().any(|c| matches!(c.req, Do::Start { .. }) && (c.t1 == 0 || c.t1 >= t0 || c.status() == 0));
        drop(h);
        if later { return; }
        if !obs || !self.o.obs_done { return; }
        let Some((_, j)) = last else { return };
        let (mut files, mut pr) = (0usize, 0usize);
        for (id, r) in j["data"]["procs"].as_object().cloned().unwrap_or_default() {
            let pid = r["pid"].as_i64().unwrap_or(-1) as Pid;
            let mut cand = self.candidates(&id, pid, u64::MAX);
            cand.sort_by_key(|(tag, k)| (self.starts[self.tags[tag].0].s0, *k));
            for (tag, _) in cand.into_iter().rev() {
                let sp = self.spec(&tag).clone();
                for (_, k, p) in spec::fds_of(&sp) { if k == "capture" { if p["mode"].as_str() == Some("memory") { pr += 1 } else { files += 1 } } }
                // A child still setting up (blocked opening) keeps its error pipe.
                if self.blocked_open(pid) { pr += 1; }
                // Something the process left behind may still hold the captured pipe.
                break;
            }
        }
        // Descendants of deleted processes that still hold a captured pipe.
        let held: BTreeSet<usize> = self.w.procs.values().filter(|p| p.state == PState::Live && p.pid != self.t.main).flat_map(|p| p.fds.values().filter_map(|e| if let OKind::PipeW(q) = self.w.of(e.of).kind { Some(q) } else { None })).collect();
        let main_pr = self.w.proc(self.t.main).fds.values().filter(|e| if let OKind::PipeR(q) = self.w.of(e.of).kind { !held.contains(&q) } else { false }).count();
        self.n("leak checks");
        let n = |k: &str| kinds.get(k).copied().unwrap_or(0);
        let b = |k: &str| self.o.base_fds.get(k).copied().unwrap_or(0);
        let mut bad = vec![];
        if main_pr > pr { bad.push(format!("{} pipe read ends (at most {} needed)", main_pr, pr)); }
        if n("pipe-write") > 0 { bad.push(format!("{} pipe write ends", n("pipe-write"))); }
        if n("file") > files { bad.push(format!("{} files (at most {} needed)", n("file"), files)); }
        if n("pidfd") > j["data"]["procs"].as_object().map_or(0, |m| m.len()) { bad.push(format!("{} pidfds", n("pidfd"))); }
        for k in ["eventfd", "epoll", "socketpair"] { if n(k) > b(k) { bad.push(format!("{} {}s (initially {})", n(k), k, b(k))); } }
        let dead = self.w.proc(self.t.main).fds.values().filter(|e| if let OKind::Conn(c, s) = self.w.of(e.of).kind { let o = &self.w.conns[c].s[1 - s]; (o.owner == Owner::Closed || o.dead || o.sent_fin) && s == 1 && self.w.conns[c].s[1].fin } else { false }).count();
        if dead > 0 { bad.push(format!("{} connections whose client has gone", dead)); }
        if !bad.is_empty() { self.bad("C22", format!("at the end the supervisor still holds {}", bad.join(", "))); }
        let temps: Vec<String> = self.w.fs.iter().filter(|(_, i)| self.w.inodes[**i].temp).map(|x| x.0.clone()).collect();
        if !temps.is_empty() && !self.plan.faults.iter().any(|f| f.op == "UNLINK") { self.bad("C22", format!("temporary files are left: {:?}", temps)); }
    }
}
pub fn len_of(f: &Value) -> usize {
    match f["type"].as_str() { Some("detached") => f["length"].as_u64().unwrap_or(0) as usize, Some("data") => f["data"].as_str().and_then(b64).map_or(0, |d| d.len()), _ => 0 }
}
pub const SIGNAMES: [&str; 32] = ["", "SIGHUP", "SIGINT", "SIGQUIT", "SIGILL", "SIGTRAP", "SIGABRT", "SIGBUS", "SIGFPE", "SIGKILL", "SIGUSR1", "SIGSEGV", "SIGUSR2", "SIGPIPE", "SIGALRM", "SIGTERM", "", "SIGCHLD", "SIGCONT", "SIGSTOP", "SIGTSTP", "SIGTTIN", "SIGTTOU", "SIGURG", "SIGXCPU", "SIGXFSZ", "SIGVTALRM", "SIGPROF", "SIGWINCH", "SIGIO", "SIGPWR", "SIGSYS"];
pub fn signum(s: &str) -> Option<i32> { if let Some(k) = SIGNAMES.iter().position(|n| !n.is_empty() && *n == s) { return Some(k as i32); } s.strip_prefix('+').unwrap_or(s).parse().ok() }
