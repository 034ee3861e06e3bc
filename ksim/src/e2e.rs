//! The real Python agent server and its clients, in a process of their own
//! (psim/e2e.py) that only ever runs while it is told to: what arrives, and
//! when, comes from here, and it says what it does and until when it would wait.
use crate::agentsrv::*;
use crate::hist::*;
use crate::kernel::*;
use crate::plan::*;
use crate::run::*;
use openssl::ssl::*;
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Zygote { child: Child, tx: ChildStdin, rx: ChildStdout, buf: Vec<u8> }
thread_local! { static PYC: RefCell<Option<Zygote>> = const { RefCell::new(None) }; static ZYGOTE: RefCell<Option<Zygote>> = const { RefCell::new(None) }; }
impl Drop for Zygote { fn drop(&mut self) { unsafe { libc::kill(-(self.child.id() as i32), libc::SIGKILL); } let _ = self.child.kill(); let _ = self.child.wait(); } }
impl Zygote {
    fn new(script: &str, src: &str, home: &str) -> Result<Zygote, String> {
        use std::os::unix::process::CommandExt;
        let py = if std::path::Path::new("/opt/vp/venv/bin/python").exists() { "/opt/vp/venv/bin/python" } else { "python3" };
        let mut child = Command::new(py).arg(format!("{}/psim/{}", home, script)).arg(src).env("PYTHONHASHSEED", "0").env("PYTHONDONTWRITEBYTECODE", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if std::env::var_os("KSIM_STDERR").is_some() { Stdio::inherit() } else { Stdio::null() }).process_group(0).spawn().map_err(|e| format!("{}: {}", py, e))?;
        let (tx, rx) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        let mut z = Zygote { child, tx, rx, buf: vec![] };
        let r = z.answer(60)?;
        if r["ready"] != json!(true) { return Err(format!("the server does not load: {}", r)); }
        Ok(z)
    }
    fn send(&mut self, v: &Value) -> Result<(), String> { let mut s = v.to_string(); s.push('\n'); self.tx.write_all(s.as_bytes()).map_err(|e| e.to_string()) }
    fn ended(&mut self) -> bool { loop { match self.answer(60) { Ok(a) if a["ended"] == json!(true) => return true, Ok(a) if a["broken"].is_null() => {} _ => return false } } }
    fn answer(&mut self, secs: u64) -> Result<Value, String> {
        loop {
            if let Some(k) = self.buf.iter().position(|b| *b == b'\n') { let l: Vec<u8> = self.buf.drain(..=k).collect(); return serde_json::from_slice(&l).map_err(|e| e.to_string()); }
            let mut p = libc::pollfd { fd: self.rx.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, secs as i32 * 1000) } <= 0 { return Err("the server's process never comes to rest".into()); }
            let mut b = [0u8; 65536];
            match self.rx.read(&mut b) { Ok(0) => return Err("the server's process died".into()), Ok(n) => self.buf.extend(&b[..n]), Err(e) => return Err(e.to_string()) }
        }
    }
}

/// The Python client, asked for requests and told the responses.
pub struct Pyc { z: Option<Zygote>, pub n: u64, pub broken: Option<String> }
pub type SharedPyc = std::rc::Rc<RefCell<Pyc>>;
impl Pyc {
    pub fn new(paths: &Paths, port: u16) -> SharedPyc {
        let src = std::env::var("KSIM_PYTHON").unwrap_or_else(|_| "/repo/python".into());
        let z = PYC.with(|z| z.borrow_mut().take()).map_or_else(|| Zygote::new("pyc.py", &src, &home(paths)), Ok);
        let mut p = Pyc { z: None, n: 0, broken: None };
        match z { Ok(mut z) => { let _ = z.send(&json!({"run": port})); p.z = Some(z); } Err(e) => p.broken = Some(e) }
        std::rc::Rc::new(RefCell::new(p))
    }
    fn ask(&mut self, v: Value) -> Value {
        let r = match self.z.as_mut() { Some(z) => z.send(&v).and_then(|_| z.answer(60)), None => Err("no client".into()) };
        match r {
            Ok(r) if r["broken"].is_null() => r,
            Ok(r) => { self.broken = Some(r["broken"].to_string()); self.z = None; Value::Null }
            Err(e) => { if self.broken.is_none() { self.broken = Some(e); } self.z = None; Value::Null }
        }
    }
    /// The request a call makes, or what it came to without one.
    pub fn call(&mut self, c: Value) -> (u64, Result<Vec<u8>, Value>) {
        self.n += 1;
        let n = self.n;
        let r = self.ask(json!({"n": n, "call": c}));
        (n, match r["request"].as_str() { Some(h) => Ok(unhex(&format!("hex:{}", h))), None => Err(r) })
    }
    pub fn back(&mut self, n: u64, raw: Option<&[u8]>) -> Value { self.ask(json!({"n": n, "response": raw.map(|d| d.iter().map(|b| format!("{:02x}", b)).collect::<String>())})) }
    pub fn finish(&mut self) { if let Some(mut z) = self.z.take() { if z.send(&json!({"end": true})).is_ok() && z.ended() { PYC.with(|c| *c.borrow_mut() = Some(z)); } } }
}
fn home(paths: &Paths) -> String { std::path::Path::new(&paths.certs).parent().and_then(|p| p.parent()).map_or("/verif".into(), |p| p.to_string_lossy().to_string()) }

struct C { ssl: SslStream<Mem>, up: bool, dead: bool, closing: bool, app: Vec<u8>, msg: Vec<u8>, eof: bool }
#[derive(Clone, Debug)]
enum Act { Next(u64), Unstall, Unhold(usize), Crash(u64), Boot, Late(usize) }
pub struct E2e {
    h: SharedHist, me: usize, plan: E2ePlan, tls: SslContext, conns: BTreeMap<usize, C>, z: Option<Zygote>, gen: u64, tok: u64, timers: BTreeMap<u64, Act>,
    stall_until: Time, down: bool, pend: Vec<Value>, waiting: BTreeSet<usize>,
}
pub fn install(w: &mut World, p: &E2ePlan, h: SharedHist, paths: &Paths, seed: u64) -> usize {
    seed_tls(seed);
    let me = w.actors.len();
    let src = std::env::var("KSIM_PYTHON").unwrap_or_else(|_| "/repo/python".into());
    let mut a = E2e { h, me, plan: p.clone(), tls: context(&paths.certs, "server", p.tls12), conns: BTreeMap::new(), z: None, gen: 0, tok: 1, timers: BTreeMap::new(), stall_until: 0, down: false, pend: vec![], waiting: BTreeSet::new() };
    for ip in [0x7f000001, 0x0a000001] { w.a_listen(me, ip, PORT); }
    let ca = std::fs::read(format!("{}/ca.pem", paths.certs)).unwrap_or_default();
    w.mkfile("/sim/ca.pem", &ca, 0o644);
    let z = ZYGOTE.with(|z| z.borrow_mut().take());
    let home = home(paths);
    let z = match z { Some(z) => Ok(z), None => Zygote::new("e2e.py", &src, &home) };
    match z {
        Ok(mut z) => {
            let ops: Vec<Value> = p.ops.iter().map(|o| { let mut v = serde_json::to_value(o).unwrap(); v["spec"] = o.specs[&o.id].clone(); v }).collect();
            let _ = z.send(&json!({"run": {"seed": seed, "cost_us": p.cost_us, "ops": ops, "token": p.token, "group": p.group, "reconnect_timeout_us": p.reconnect_timeout_us}}));
            a.z = Some(z);
            a.timer_at(w, Act::Next(0), T0);
        }
        Err(e) => a.broken(w, e),
    }
    for (us, down) in &p.restarts { a.timer_at(w, Act::Crash(*down), T0 + us * US); }
    w.actors.push(Some(Box::new(a)));
    me
}
pub fn event(w: &mut World, s: usize, e: &Evt) {
    let mut a = w.actors[s].take().unwrap();
    a.any().downcast_mut::<E2e>().unwrap().event(w, e);
    w.actors[s] = Some(a);
}
/// The run is over.
pub fn finish(w: &mut World, s: usize) {
    let Some(a) = w.actors[s].as_mut() else { return };
    let Some(e) = a.any().downcast_mut::<E2e>() else { return };
    if let Some(mut z) = e.z.take() { if z.send(&json!({"end": true})).is_ok() && z.ended() { ZYGOTE.with(|c| *c.borrow_mut() = Some(z)); } }
    let (ops, h) = (e.plan.ops.clone(), e.h.clone());
    let mut h = h.borrow_mut();
    let mut calls = vec![];
    for (n, op) in ops.iter().enumerate() {
        let notes: Vec<(Time, u64, Value)> = h.e2e.iter().filter(|x| x.2["n"] == json!(n)).cloned().collect();
        let call = |t0, s0, t1, s1, req, out| Call { client: format!("e{}", n), conn: 100_000 + calls.len(), nth: 0, req, how: How::default(), t0, s0, t_sent: t0, t1, s1, out };
        let k = |x: &(Time, u64, Value), k: &str| x.2["k"] == k;
        let Some(o) = notes.iter().find(|x| k(x, "op")) else { continue };
        let specs = op.specs.clone();
        let first = notes.iter().find(|x| k(x, "result"));
        let fail = notes.iter().find(|x| k(x, "failed") || k(x, "end") && x.2["how"] != "deleted");
        let (out, t1, s1) = match (first, fail) {
            (Some(r), _) => (Outc::Msg(json!({"type": "Ok"})), r.0, r.1),
            (None, Some(f)) if never_sent(&f.2) => (Outc::ConnFail(0), f.0, f.1),
            (None, Some(f)) if refused(&f.2) => (Outc::Msg(json!({"type": "RequestError", "err": f.2["msg"]})), f.0, f.1),
            (None, f) => (Outc::Lost, f.map_or(w.now, |f| f.0), f.map_or(w.step, |f| f.1)),
        };
        let c = call(o.0, o.1, t1, s1, Do::Start { specs }, out);
        calls.push(c);
        for a in notes.iter().filter(|x| k(x, "act")) {
            let what = a.2["what"].as_str().unwrap_or("").to_string();
            let id = op.id.clone();
            let call = |req, out, t1, s1| Call { client: format!("e{}", n), conn: 100_000 + calls.len(), nth: 0, req, how: How::default(), t0: a.0, s0: a.1, t_sent: a.0, t1, s1, out };
            if what == "delete" { let c = call(Do::Delete { id }, Outc::Lost, w.now, w.step); calls.push(c); }
            else if let Some(sig) = what.strip_prefix("signal ") { let c = call(Do::Signal { id, sig: sig.into() }, Outc::Lost, w.now, w.step); calls.push(c); }
        }
        // Answers can't be told apart: each is as good as asked for from the start.
        for f in notes.iter().filter(|x| k(x, "fd")) {
            let d = unhex(&format!("hex:{}", f.2["data"]["hex"].as_str().unwrap_or("")));
            let m = json!({"type": "ProcFdData", "proc_id": op.id, "fd": f.2["fd"], "start": f.2["start"], "stop": f.2["stop"], "encoding": f.2["encoding"], "data": d});
            let c = Call { client: format!("e{}", n), conn: 100_000 + calls.len(), nth: 0, req: Do::Output { id: op.id.clone(), fd: f.2["fd"].as_str().unwrap_or("").into(), start: 0, stop: None }, how: How::default(), t0: o.0, s0: o.1, t_sent: o.0, t1: f.0, s1: f.1, out: Outc::Msg(m) };
            calls.push(c);
        }
    }
    calls.sort_by_key(|c| c.s0);
    h.calls.extend(calls);
}
/// Whether a client that failed so can know that nothing was asked of the agent.
pub fn never_sent(f: &Value) -> bool { f["k"] == "failed" && (f["how"] == "NoOpenConnectionInGroup" || f["how"] == "AssertionError" && f["msg"] == "") }
/// Whether the client was told that its process was not started.
pub fn refused(f: &Value) -> bool { f["how"] == "AgentMessageError" && f["req"] == "ProcStartRequest" }
impl E2e {
    fn timer_at(&mut self, w: &mut World, a: Act, t: Time) { self.tok += 1; self.timers.insert(self.tok, a); w.at(t.max(w.now + 1), Ev::Actor(self.me, self.tok)); }
    fn log(&self, w: &World, c: usize, m: AMsg) { self.h.borrow_mut().agent.push((w.now, w.step, c, m)); }
    fn note(&self, w: &World, v: Value) { self.h.borrow_mut().e2e.push((w.now, w.step, v)); }
    fn broken(&mut self, w: &World, e: String) { self.z = None; self.note(w, json!({"k": "broken", "what": e})); }
    fn stalled(&self, w: &World) -> bool { w.now < self.stall_until }
    fn event(&mut self, w: &mut World, e: &Evt) {
        let live: Vec<usize> = self.conns.iter().filter(|x| !x.1.dead && w.established(*x.0)).map(|x| *x.0).collect();
        match e {
            Evt::BreakConns => for c in live { w.fault("net:break"); self.note(w, json!({"k": "trouble"})); w.break_conn(c); self.reset(w, c); },
            Evt::BreakHalf { us } => for c in live { let s = w.a_side(c, self.me); let u = w.now + us * US; w.fault("net:break_half"); self.note(w, json!({"k": "trouble", "until": u})); w.break_half(c, 1 - s); self.timer_at(w, Act::Late(c), u); },
            Evt::ServerStall { us } => if !self.down { w.fault("server:stall"); self.stall_until = self.stall_until.max(w.now + us * US); let u = self.stall_until; self.note(w, json!({"k": "trouble", "until": u})); self.timer_at(w, Act::Unstall, u); }
            Evt::Hold { us, from_agent } => for c in live { let s = w.a_side(c, self.me); w.fault("net:hold"); w.hold(c, if *from_agent { 1 - s } else { s }, true); let u = w.now + us * US; self.note(w, json!({"k": "trouble", "until": u})); self.timer_at(w, Act::Unhold(c), u); },
            _ => {}
        }
    }
    fn reset(&mut self, w: &mut World, c: usize) {
        let Some(x) = self.conns.get_mut(&c) else { return };
        if x.dead { return; }
        x.dead = true;
        let up = x.up;
        self.log(w, c, AMsg::Closed { why: "reset".into() });
        if up { self.pend.push(json!(["rst", c])); self.step(w); }
    }
    fn flush(&mut self, w: &mut World, c: usize) {
        let s = w.a_side(c, self.me);
        let x = self.conns.get_mut(&c).unwrap();
        let d: Vec<u8> = std::mem::take(&mut x.ssl.get_mut().tx);
        if !d.is_empty() && !x.dead { w.queue_data(c, s, &d); }
    }
    fn close(&mut self, w: &mut World, c: usize, rst: bool) {
        let x = self.conns.get_mut(&c).unwrap();
        if x.dead { return; }
        if !rst { let _ = x.ssl.shutdown(); self.flush(w, c); }
        self.conns.get_mut(&c).unwrap().dead = true;
        self.log(w, c, AMsg::Closed { why: if rst { "aborted by the server".into() } else { "closed by the server".into() } });
        let s = w.a_side(c, self.me);
        if rst { w.reset_conn(c, s) } else { w.close_conn(c, s) }
    }
    /// Something came from the agent.
    fn data(&mut self, w: &mut World, c: usize, eof: bool) {
        let Some(x) = self.conns.get_mut(&c) else { return };
        if x.dead || self.down { return; }
        x.eof |= eof;
        if w.now < self.stall_until { self.waiting.insert(c); return; }
        let eof = x.eof;
        let s = w.a_side(c, self.me);
        let d = w.a_recv(c, s);
        let x = self.conns.get_mut(&c).unwrap();
        x.ssl.get_mut().rx.extend(d);
        x.ssl.get_mut().eof |= eof;
        if !x.up {
            match x.ssl.accept() {
                Ok(()) => { x.up = true; let p = w.conns[c].src_port; self.pend.push(json!(["open", c, "10.0.0.9", p])); }
                Err(e) if e.code() == ErrorCode::WANT_READ && !eof => return self.flush(w, c),
                Err(_) => { self.flush(w, c); return self.close(w, c, false); }
            }
        }
        let mut buf = [0u8; 16384];
        let mut over = eof;
        let mut got: Vec<u8> = vec![];
        let x = self.conns.get_mut(&c).unwrap();
        loop { match x.ssl.ssl_read(&mut buf) { Ok(0) => break, Ok(n) => got.extend(&buf[..n]), Err(e) => { if e.code() != ErrorCode::WANT_READ { over = true; } break; } } }
        self.flush(w, c);
        if !got.is_empty() {
            let hex: String = got.iter().map(|b| format!("{:02x}", b)).collect();
            self.pend.push(json!(["data", c, hex]));
            self.conns.get_mut(&c).unwrap().app.extend(got);
            self.frames(w, c);
        }
        if over { let x = self.conns.get_mut(&c).unwrap(); if !x.closing { x.closing = true; self.pend.push(json!(["fin", c])); } }
        self.step(w);
    }
    /// For the record: the agent's messages.
    fn frames(&mut self, w: &mut World, c: usize) {
        loop {
            let x = self.conns.get_mut(&c).unwrap();
            if x.app.starts_with(b"GET ") { match x.app.windows(4).position(|a| a == b"\r\n\r\n") { Some(k) => { x.app.drain(..k + 4); } None => return } }
            let b = &x.app;
            if b.len() < 2 { return; }
            let (fin, op, l7) = (b[0] & 0x80 != 0, b[0] & 15, (b[1] & 127) as usize);
            let (n, mut p) = match l7 { 126 => { if b.len() < 4 { return; } (u16::from_be_bytes([b[2], b[3]]) as usize, 4) } 127 => { if b.len() < 10 { return; } (u64::from_be_bytes(b[2..10].try_into().unwrap()) as usize, 10) } n => (n, 2) };
            let mk = if b[1] & 0x80 != 0 { if b.len() < p + 4 { return; } p += 4; [b[p - 4], b[p - 3], b[p - 2], b[p - 1]] } else { [0; 4] };
            if b.len() < p + n { return; }
            let d: Vec<u8> = b[p..p + n].iter().enumerate().map(|(i, y)| y ^ mk[i % 4]).collect();
            x.app.drain(..p + n);
            if op < 3 { x.msg.extend(d); if fin { let m = std::mem::take(&mut x.msg); let mut at = 0; if let Some(v) = dec(&m, &mut at) { self.log(w, c, AMsg::In(v)); } } }
        }
    }
    /// Lets the server run with what is pending.
    fn step(&mut self, w: &mut World) {
        if self.stalled(w) || self.z.is_none() { return; }
        let ev = std::mem::take(&mut self.pend);
        let z = self.z.as_mut().unwrap();
        if std::env::var_os("E2E").is_some() { eprintln!("{} {:?}", w.now, ev); }
        if let Err(e) = z.send(&json!({"t": w.now / US, "ev": ev})) { return self.broken(w, e); }
        self.result(w);
    }
    fn result(&mut self, w: &mut World) {
        let a = match self.z.as_mut().unwrap().answer(60) { Ok(a) => a, Err(e) => return self.broken(w, e) };
        if let Some(b) = a["broken"].as_str() { let l = b.lines().last().unwrap_or("").to_string(); if std::env::var_os("KSIM_STDERR").is_some() { eprintln!("{}", b); } self.note(w, json!({"k": "broken", "what": l})); self.z = None; return; }
        for n in a["log"].as_array().into_iter().flatten() { self.note(w, n.clone()); }
        for o in a["out"].as_array().into_iter().flatten() {
            let c = o[1].as_u64().unwrap_or(0) as usize;
            if self.conns.get(&c).map_or(true, |x| x.dead) { continue; }
            match o[0].as_str() {
                Some("data") => { let d = unhex(&format!("hex:{}", o[2].as_str().unwrap_or(""))); let _ = self.conns.get_mut(&c).unwrap().ssl.write_all(&d); self.flush(w, c); }
                Some("fin") => self.close(w, c, false),
                _ => self.close(w, c, true),
            }
        }
        self.gen += 1;
        if let Some(n) = a["next"].as_u64() { let g = self.gen; self.timer_at(w, Act::Next(g), n * US); }
    }
}
impl Actor for E2e {
    fn on(&mut self, w: &mut World, _me: usize, ev: AEv) {
        match ev {
            AEv::Accept(c) => {
                let ssl = SslStream::new(Ssl::new(&self.tls).unwrap(), Mem::default()).unwrap();
                self.conns.insert(c, C { ssl, up: false, dead: false, closing: false, app: vec![], msg: vec![], eof: false });
                self.log(w, c, AMsg::Open { attempt: c });
            }
            AEv::Data(c) => self.data(w, c, false),
            AEv::Eof(c) => self.data(w, c, true),
            AEv::Rst(c) => self.reset(w, c),
            AEv::Timer(k) => match self.timers.remove(&k) {
                Some(Act::Next(0)) => if self.z.is_some() { self.result(w) },
                Some(Act::Next(g)) => if g == self.gen && !self.down { self.step(w) },
                Some(Act::Unstall) => if !self.stalled(w) && !self.down { for c in std::mem::take(&mut self.waiting) { self.data(w, c, false); } self.step(w); },
                Some(Act::Unhold(c)) => for s in 0..2 { w.hold(c, s, false); },
                Some(Act::Late(c)) => if self.conns.get(&c).map_or(false, |x| !x.dead) { let s = w.a_side(c, self.me); w.a_break(c, s); self.reset(w, c); },
                Some(Act::Crash(d)) => if !self.down {
                    w.fault("server:crash");
                    self.note(w, json!({"k": "trouble", "until": w.now + d * US}));
                    self.down = true;
                    self.stall_until = 0;
                    self.waiting.clear();
                    let live: Vec<usize> = self.conns.iter().filter(|x| !x.1.dead).map(|x| *x.0).collect();
                    for c in live { self.conns.get_mut(&c).unwrap().dead = true; self.log(w, c, AMsg::Closed { why: "the server crashed".into() }); let s = w.a_side(c, self.me); w.close_conn(c, s); }
                    for ip in [0x7f000001, 0x0a000001] { w.refuse.insert((ip, PORT)); }
                    self.pend = vec![json!(["crash"])];
                    self.step(w);
                    self.timer_at(w, Act::Boot, w.now + d * US);
                },
                Some(Act::Boot) => { self.down = false; self.stall_until = 0; for ip in [0x7f000001, 0x0a000001] { w.refuse.remove(&(ip, PORT)); } self.pend = vec![json!(["boot"])]; self.step(w); }
                _ => {}
            },
            _ => {}
        }
    }
    fn any(&mut self) -> &mut dyn Any { self }
}
