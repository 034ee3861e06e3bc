//! HTTP clients of the supervisor's service, well behaved and otherwise.
use crate::hist::*;
use crate::kernel::*;
use crate::plan::*;
use std::any::Any;
use std::collections::{BTreeMap, VecDeque};

pub const TIMEOUT: Time = 30 * SEC;
const T_OP: u64 = 1 << 32;
const T_FRAG: u64 = 2 << 32;
const T_TIMEOUT: u64 = 3 << 32;
const T_GIVEUP: u64 = 4 << 32;
const T_READ: u64 = 5 << 32;
const T_POLL: u64 = 6 << 32;

pub struct Client {
    pub name: String,
    pub port: u16,
    pub ops: VecDeque<ClientOp>,
    pub h: SharedHist,
    conn: Option<usize>,
    up: bool,
    nth: usize,
    cur: Option<usize>,
    op: Option<ClientOp>,
    out: Vec<u8>,
    sent: usize,
    buf: Vec<u8>,
    gen: u64,
    poll: u32,
    no_read_until: Time,
    /// Ids and states from the last listing.
    last: BTreeMap<String, serde_json::Value>,
    pub finished: Option<Time>,
    pub observer: bool,
    left_open: Vec<usize>,
    py: Option<crate::e2e::SharedPyc>,
    /// The call the Python client is in.
    py_n: Option<u64>,
    raw: Option<Vec<u8>>,
}
impl Client {
    pub fn new(name: String, port: u16, plan: &ClientPlan, h: SharedHist, py: Option<crate::e2e::SharedPyc>) -> Client {
        Client { name, port, ops: plan.ops.iter().cloned().collect(), h, conn: None, up: false, nth: 0, cur: None, op: None, out: vec![], sent: 0, buf: vec![], gen: 0, poll: 0, no_read_until: 0, last: BTreeMap::new(), finished: None, observer: plan.observer, left_open: vec![], py, py_n: None, raw: None }
    }
    fn bytes(what: &Do) -> Vec<u8> {
        let get = |m: &str, p: String| format!("{} {} HTTP/1.1\r\nhost: sim\r\n\r\n", m, p).into_bytes();
        match what {
            Do::Start { specs } => { let b = serde_json::json!({"specs": specs}).to_string(); format!("POST /procs HTTP/1.1\r\nhost: sim\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{}", b.len(), b).into_bytes() }
            Do::List => get("GET", "/procs".into()),
            Do::Get { id } | Do::WaitEnd { id, .. } => get("GET", format!("/procs/{}", enc(id))),
            Do::Delete { id } => get("DELETE", format!("/procs/{}", enc(id))),
            Do::Signal { id, sig } => format!("POST /procs/{}/signals/{} HTTP/1.1\r\nhost: sim\r\ncontent-length: 0\r\n\r\n", enc(id), enc(sig)).into_bytes(),
            Do::Output { id, fd, .. } => get("GET", format!("/procs/{}/output/{}/data", enc(id), enc(fd))),
            Do::Raw { bytes, .. } => if let Some(h) = bytes.strip_prefix("hex:") { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() } else { bytes.clone().into_bytes() },
            _ => vec![],
        }
    }
    fn schedule_next(&mut self, w: &mut World, me: usize) {
        self.gen += 1;
        match self.ops.front() {
            Some(o) => { let d = o.gap_us * US + 1000; w.actor_soon(me, T_OP | self.gen, d); }
            None => {
                if self.finished.is_none() { self.finished = Some(w.now); }
                self.close(w, me, false);
            }
        }
    }
    fn close(&mut self, w: &mut World, me: usize, rst: bool) {
        if let Some(c) = self.conn.take() {
            let s = w.a_side(c, me);
            if rst { w.reset_conn(c, s) } else { w.close_conn(c, s) }
        }
        self.up = false;
        self.buf.clear();
    }
    fn finish(&mut self, w: &mut World, me: usize, out: Outc) {
        if let Some(i) = self.cur.take() {
            let raw = self.raw.take();
            let told = self.py_n.take().map(|n| self.py.as_ref().unwrap().borrow_mut().back(n, raw.as_deref()));
            let mut h = self.h.borrow_mut();
            if let Some(t) = told { h.py.push((i, t)); }
            let c = &mut h.calls[i];
            c.t1 = w.now;
            c.s1 = w.step;
            c.out = out.clone();
            if let (Do::List, Outc::Http { status: 200, body, .. }) = (&c.req, &out) {
                if let Ok(v) = serde_json::from_slice::<serde_json::Value>(body) {
                    self.last = v["data"]["procs"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default();
                }
            }
        }
        let op = self.op.take().unwrap();
        // Whatever follows an odd request on its connection is not judged.
        if matches!(op.what, Do::Raw { .. }) { self.close(w, me, false); }
        if let Do::WaitEnd { id, poll_us, max } = &op.what {
            self.poll += 1;
            let ended = match &out { Outc::Http { status: 200, body, .. } => serde_json::from_slice::<serde_json::Value>(body).map_or(false, |v| v["data"]["procs"][id]["state"] != "running"), Outc::Http { .. } => true, _ => false };
            if !ended && self.poll < *max {
                self.gen += 1;
                let d = *poll_us * US;
                self.op = Some(op);
                w.actor_soon(me, T_POLL | self.gen, d);
                return;
            }
        }
        self.poll = 0;
        self.schedule_next(w, me);
    }
    fn start_call(&mut self, w: &mut World, me: usize) {
        let op = self.op.clone().unwrap();
        // Expansions.
        match &op.what {
            Do::GetAll => {
                let ids: Vec<String> = self.last.keys().cloned().collect();
                for id in ids.into_iter().rev() { self.ops.push_front(ClientOp { gap_us: 0, what: Do::Get { id }, how: op.how.clone() }); }
                self.op = None;
                return self.schedule_next(w, me);
            }
            Do::DeleteAll => {
                let ids: Vec<String> = self.last.iter().filter(|(_, v)| v["state"] != "running").map(|x| x.0.clone()).collect();
                for id in ids.into_iter().rev() { self.ops.push_front(ClientOp { gap_us: 0, what: Do::Delete { id }, how: op.how.clone() }); }
                self.op = None;
                return self.schedule_next(w, me);
            }
            Do::OutputAll => {
                let mut v = vec![];
                for (id, r) in &self.last {
                    if let Some(m) = r["fds"].as_object() { for (fd, x) in m { if !x.is_null() { v.push(ClientOp { gap_us: 0, what: Do::Output { id: id.clone(), fd: fd.clone(), start: 0, stop: None }, how: op.how.clone() }); } } }
                }
                for o in v.into_iter().rev() { self.ops.push_front(o); }
                self.op = None;
                return self.schedule_next(w, me);
            }
            Do::Pause => { self.op = None; return self.schedule_next(w, me); }
            _ => {}
        }
        let req = match &op.what { Do::WaitEnd { id, .. } => Do::Get { id: id.clone() }, Do::Start { specs } => Do::Start { specs: crate::spec::expand(specs) }, x => x.clone() };
        self.out = Self::bytes(&req);
        let call = self.py.as_ref().and_then(|p| py_call(&op.what, p.borrow().n));
        if let Some(c) = call {
            let (n, r) = self.py.as_ref().unwrap().borrow_mut().call(c);
            match r {
                Ok(b) => { self.out = b; self.py_n = Some(n); }
                Err(e) => {
                    self.h.borrow_mut().py_failed.push((w.now, req, e));
                    self.op = None;
                    return self.schedule_next(w, me);
                }
            }
        }
        self.sent = 0;
        self.no_read_until = 0;
        // A connection the other side is ending is not used again.
        if let Some(c) = self.conn { let s = w.a_side(c, me); if op.how.newconn || !self.up || w.conns[c].s[s].dead || w.conns[c].s[s].fin || w.conns[c].s[s].sent_fin { self.close(w, me, false); } }
        let fresh = self.conn.is_none();
        if fresh { self.conn = Some(w.a_connect(me, 0x7f000001, self.port)); self.nth = 0; self.up = false; self.buf.clear(); }
        let mut h = self.h.borrow_mut();
        h.calls.push(Call { client: self.name.clone(), conn: self.conn.unwrap(), nth: self.nth, req, how: op.how.clone(), t0: w.now, s0: w.step, t_sent: 0, t1: 0, s1: 0, out: Outc::Pending });
        self.cur = Some(h.calls.len() - 1);
        drop(h);
        self.nth += 1;
        self.gen += 1;
        w.actor_soon(me, T_TIMEOUT | self.gen, TIMEOUT);
        if !fresh { self.send(w, me); }
    }
    fn send(&mut self, w: &mut World, me: usize) {
        let how = self.op.as_ref().unwrap().how.clone();
        let c = match self.conn { Some(c) => c, None => return };
        let s = w.a_side(c, me);
        let lim = how.abandon.unwrap_or(usize::MAX).min(self.out.len());
        let end = if how.frag == 0 { lim } else { (self.sent + how.frag).min(lim) };
        if end > self.sent { let d = self.out[self.sent..end].to_vec(); w.queue_data(c, s, &d); self.sent = end; }
        if self.sent < lim { self.gen_frag(w, me, how.frag_gap_us); return; }
        if let Some(i) = self.cur { self.h.borrow_mut().calls[i].t_sent = w.now; }
        if how.abandon.is_some() {
            w.fault("client:abandon_request");
            if how.leave_open { self.left_open.push(c); self.conn = None; self.up = false; } else { self.close(w, me, how.rst); }
            return self.finish(w, me, Outc::Abandoned);
        }
        if how.half_close { w.a_shutdown(c, s); }
        if let Some(us) = how.abandon_us { w.actor_soon(me, T_GIVEUP | self.gen, us * US); }
        if how.slow_read_us > 0 { w.fault("client:slow_read"); self.no_read_until = w.now + how.slow_read_us * US; w.actor_soon(me, T_READ | self.gen, how.slow_read_us * US); }
    }
    fn gen_frag(&mut self, w: &mut World, me: usize, us: u64) { w.actor_soon(me, T_FRAG | self.gen, us * US + 1000); }
    fn data(&mut self, w: &mut World, me: usize) {
        let c = match self.conn { Some(c) => c, None => return };
        if self.no_read_until > w.now { return; }
        let s = w.a_side(c, me);
        let d = w.a_recv(c, s);
        self.buf.extend(d);
        if self.cur.is_none() { return; }
        if let Some((status, ctype, body, used)) = parse(&self.buf) {
            self.raw = Some(self.buf.drain(..used).collect());
            // A response before the request is complete ends the exchange.
            if self.sent < self.out.len() { self.close(w, me, false); }
            self.finish(w, me, Outc::Http { status, ctype, body });
        }
    }
    fn lost(&mut self, w: &mut World, me: usize, o: Outc) {
        self.close(w, me, false);
        if self.cur.is_some() { self.finish(w, me, o); }
    }
}
/// A path component for a name.
pub fn enc(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.~+:".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect() }
/// The call of the Python client that makes a request, if it can be made so.
fn py_call(what: &Do, n: u64) -> Option<serde_json::Value> {
    use serde_json::json;
    // What a URL cannot name.
    let named = |s: &str| !["", ".", ".."].contains(&s);
    Some(match what {
        Do::Start { specs } => {
            let m = specs.as_object().filter(|m| !m.is_empty())?;
            let v: Option<serde_json::Map<_, _>> = m.iter().map(|(i, s)| if s.get("make").is_some() { Some((i.clone(), s.clone())) } else if crate::spec::expressible(s) { Some((i.clone(), json!({"spec": s}))) } else { None }).collect();
            json!({"do": "start", "specs": v?})
        }
        Do::List => json!({"do": "list"}),
        Do::Get { id } | Do::WaitEnd { id, .. } if named(id) => json!({"do": "get", "id": id}),
        Do::Delete { id } if named(id) => json!({"do": "delete", "id": id}),
        Do::Signal { id, sig } if named(id) && named(sig) => match sig.parse::<i64>() { Ok(k) if n % 2 == 0 => json!({"do": "signal", "id": id, "sig": k}), _ => json!({"do": "signal", "id": id, "sig": sig}) },
        Do::Output { id, fd, .. } if named(id) && named(fd) => json!({"do": "output", "id": id, "fd": fd}),
        _ => return None,
    })
}
/// Parses one response: status, content type, body, length.
pub fn parse(b: &[u8]) -> Option<(u16, String, Vec<u8>, usize)> {
    let k = b.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = String::from_utf8_lossy(&b[..k]).to_string();
    let mut lines = head.split("\r\n");
    let status = lines.next()?.split(' ').nth(1)?.parse().ok()?;
    let (mut len, mut ct) = (0usize, String::new());
    for l in lines { if let Some((n, v)) = l.split_once(':') { match n.to_ascii_lowercase().as_str() { "content-length" => len = v.trim().parse().ok()?, "content-type" => ct = v.trim().into(), _ => {} } } }
    if b.len() < k + 4 + len { return None; }
    Some((status, ct, b[k + 4..k + 4 + len].to_vec(), k + 4 + len))
}
impl Actor for Client {
    fn on(&mut self, w: &mut World, me: usize, ev: AEv) {
        match ev {
            AEv::Timer(0) => self.schedule_next(w, me),
            AEv::Timer(t) => {
                if t & 0xffffffff != self.gen { return; }
                match t & !0xffffffff {
                    T_OP => { self.op = self.ops.pop_front(); if self.op.is_some() { self.start_call(w, me); } }
                    T_POLL => self.start_call(w, me),
                    T_FRAG => if self.up { self.send(w, me) },
                    T_TIMEOUT => { self.close(w, me, false); self.finish(w, me, Outc::Timeout); }
                    T_GIVEUP => { w.fault("client:abandon_response"); let rst = self.op.as_ref().unwrap().how.rst; self.close(w, me, rst); self.finish(w, me, Outc::Abandoned); }
                    T_READ => { self.no_read_until = 0; self.data(w, me); }
                    _ => {}
                }
            }
            AEv::Connected(c) if self.conn == Some(c) => { self.up = true; if self.op.is_some() { self.send(w, me); } }
            AEv::Failed(c, e) if self.conn == Some(c) => { self.conn = None; if self.cur.is_some() { self.finish(w, me, Outc::ConnFail(e)); } }
            AEv::Data(c) if self.conn == Some(c) => self.data(w, me),
            AEv::Eof(c) | AEv::Rst(c) if self.conn == Some(c) => { self.data(w, me); if self.conn == Some(c) { self.lost(w, me, Outc::Lost); } }
            AEv::Eof(c) => if let Some(k) = self.left_open.iter().position(|x| *x == c) { self.left_open.remove(k); let s = w.a_side(c, me); w.close_conn(c, s); },
            _ => {}
        }
    }
    fn any(&mut self) -> &mut dyn Any { self }
}
