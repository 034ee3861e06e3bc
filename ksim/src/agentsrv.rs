//! A simulated agent server: TLS (real OpenSSL over simulated bytes), WebSocket
//! and the agents' message protocol, well behaved and otherwise.
use crate::hist::*;
use crate::kernel::*;
use crate::plan::*;
use crate::rng::*;
use openssl::ssl::*;
use serde_json::{json, Map, Value};
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::io::{self, Read, Write};

// ------------------------------------------------------------------ randomness of TLS
#[repr(C)]
struct RandMeth { seed: Option<extern "C" fn(*const u8, i32) -> i32>, bytes: extern "C" fn(*mut u8, i32) -> i32, cleanup: Option<extern "C" fn()>, add: Option<extern "C" fn(*const u8, i32, f64) -> i32>, pseudorand: extern "C" fn(*mut u8, i32) -> i32, status: extern "C" fn() -> i32 }
extern "C" { fn RAND_set_rand_method(m: *const RandMeth) -> i32; }
thread_local! { static RNG: Cell<u64> = const { Cell::new(1) }; }
extern "C" fn rbytes(p: *mut u8, n: i32) -> i32 {
    RNG.with(|r| { for i in 0..n as usize { let x = mix(r.get()); r.set(r.get().wrapping_add(0x9e3779b97f4a7c15)); unsafe { *p.add(i) = x as u8; } } });
    1
}
extern "C" fn rstatus() -> i32 { 1 }
extern "C" fn rseed(_: *const u8, _: i32) -> i32 { 1 }
extern "C" fn radd(_: *const u8, _: i32, _: f64) -> i32 { 1 }
static METH: RandMeth = RandMeth { seed: Some(rseed), bytes: rbytes, cleanup: None, add: Some(radd), pseudorand: rbytes, status: rstatus };
unsafe impl Sync for RandMeth {}

// ------------------------------------------------------------------ MessagePack
pub fn enc(v: &Value, o: &mut Vec<u8>) {
    match v {
        Value::Null => o.push(0xc0),
        Value::Bool(b) => o.push(0xc2 + *b as u8),
        Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                if u < 128 { o.push(u as u8) } else if u < 256 { o.extend([0xcc, u as u8]) } else if u < 65536 { o.push(0xcd); o.extend((u as u16).to_be_bytes()) } else if u < 1 << 32 { o.push(0xce); o.extend((u as u32).to_be_bytes()) } else { o.push(0xcf); o.extend(u.to_be_bytes()) }
            } else if let Some(i) = n.as_i64() {
                if i >= -32 { o.push(i as i8 as u8) } else if i >= -128 { o.extend([0xd0, i as i8 as u8]) } else if i >= -32768 { o.push(0xd1); o.extend((i as i16).to_be_bytes()) } else if i >= -(1 << 31) { o.push(0xd2); o.extend((i as i32).to_be_bytes()) } else { o.push(0xd3); o.extend(i.to_be_bytes()) }
            } else { o.push(0xcb); o.extend(n.as_f64().unwrap_or(0.0).to_be_bytes()) }
        }
        Value::String(s) => {
            let n = s.len();
            if n < 32 { o.push(0xa0 + n as u8) } else if n < 256 { o.extend([0xd9, n as u8]) } else if n < 65536 { o.push(0xda); o.extend((n as u16).to_be_bytes()) } else { o.push(0xdb); o.extend((n as u32).to_be_bytes()) }
            o.extend(s.as_bytes());
        }
        Value::Array(a) => { if a.len() < 16 { o.push(0x90 + a.len() as u8) } else { o.push(0xdc); o.extend((a.len() as u16).to_be_bytes()) } for x in a { enc(x, o) } }
        Value::Object(m) => { if m.len() < 16 { o.push(0x80 + m.len() as u8) } else { o.push(0xde); o.extend((m.len() as u16).to_be_bytes()) } for (k, x) in m { enc(&Value::String(k.clone()), o); enc(x, o) } }
    }
}
/// Decodes one value; binary data becomes an array of numbers.
pub fn dec(b: &[u8], at: &mut usize) -> Option<Value> {
    fn take<'a>(b: &'a [u8], at: &mut usize, n: usize) -> Option<&'a [u8]> { let r = b.get(*at..at.checked_add(n)?)?; *at += n; Some(r) }
    fn be(b: &[u8], at: &mut usize, n: usize) -> Option<u64> { Some(take(b, at, n)?.iter().fold(0u64, |a, x| a << 8 | *x as u64)) }
    fn st(b: &[u8], at: &mut usize, n: usize) -> Option<Value> { Some(Value::String(String::from_utf8(take(b, at, n)?.to_vec()).ok()?)) }
    fn bi(b: &[u8], at: &mut usize, n: usize) -> Option<Value> { Some(Value::Array(take(b, at, n)?.iter().map(|x| json!(*x)).collect())) }
    fn ar(b: &[u8], at: &mut usize, n: usize) -> Option<Value> { let mut v = vec![]; for _ in 0..n { v.push(dec(b, at)?); } Some(Value::Array(v)) }
    fn mp(b: &[u8], at: &mut usize, n: usize) -> Option<Value> { let mut m = Map::new(); for _ in 0..n { let k = dec(b, at)?; let k = k.as_str().map(|s| s.to_string()).unwrap_or_else(|| k.to_string()); m.insert(k, dec(b, at)?); } Some(Value::Object(m)) }
    let t = take(b, at, 1)?[0];
    Some(match t {
        0..=0x7f => json!(t), 0xe0..=0xff => json!(t as i8), 0x80..=0x8f => mp(b, at, (t & 15) as usize)?, 0x90..=0x9f => ar(b, at, (t & 15) as usize)?, 0xa0..=0xbf => st(b, at, (t & 31) as usize)?,
        0xc0 => Value::Null, 0xc2 => json!(false), 0xc3 => json!(true),
        0xc4 => { let n = be(b, at, 1)? as usize; bi(b, at, n)? } 0xc5 => { let n = be(b, at, 2)? as usize; bi(b, at, n)? } 0xc6 => { let n = be(b, at, 4)? as usize; bi(b, at, n)? }
        0xca => json!(f32::from_bits(be(b, at, 4)? as u32)), 0xcb => json!(f64::from_bits(be(b, at, 8)?)),
        0xcc => json!(be(b, at, 1)?), 0xcd => json!(be(b, at, 2)?), 0xce => json!(be(b, at, 4)?), 0xcf => json!(be(b, at, 8)?),
        0xd0 => json!(be(b, at, 1)? as i8), 0xd1 => json!(be(b, at, 2)? as i16), 0xd2 => json!(be(b, at, 4)? as i32), 0xd3 => json!(be(b, at, 8)? as i64),
        0xd9 => { let n = be(b, at, 1)? as usize; st(b, at, n)? } 0xda => { let n = be(b, at, 2)? as usize; st(b, at, n)? } 0xdb => { let n = be(b, at, 4)? as usize; st(b, at, n)? }
        0xdc => { let n = be(b, at, 2)? as usize; ar(b, at, n)? } 0xdd => { let n = be(b, at, 4)? as usize; ar(b, at, n)? }
        0xde => { let n = be(b, at, 2)? as usize; mp(b, at, n)? } 0xdf => { let n = be(b, at, 4)? as usize; mp(b, at, n)? }
        _ => return None,
    })
}

// ------------------------------------------------------------------ TLS over simulated bytes
#[derive(Default)]
pub struct Mem { pub rx: VecDeque<u8>, pub tx: Vec<u8>, pub eof: bool }
impl Read for Mem { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.rx.is_empty() { return if self.eof { Ok(0) } else { Err(io::ErrorKind::WouldBlock.into()) }; } let n = b.len().min(self.rx.len()); for x in b.iter_mut().take(n) { *x = self.rx.pop_front().unwrap(); } Ok(n) } }
impl Write for Mem { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.tx.extend(b); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }

pub fn context(certs: &str, which: &str, tls12: bool) -> SslContext {
    let mut b = SslContext::builder(SslMethod::tls_server()).unwrap();
    b.set_certificate_chain_file(format!("{}/{}.pem", certs, which)).unwrap_or_else(|e| panic!("{}/{}: {}", certs, which, e));
    b.set_private_key_file(format!("{}/{}.key", certs, which), SslFiletype::PEM).unwrap();
    if tls12 { b.set_max_proto_version(Some(SslVersion::TLS1_2)).unwrap(); }
    b.build()
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum St { Tcp, Tls, Http, Await, Reg, Closing, Silent, Dead }
struct Item { call: Option<usize>, what: Do, fence: bool, got: Option<(Value, Time, u64)> }
struct C {
    n: usize, at: Attempt, rec: usize, st: St, ssl: Option<SslStream<Mem>>, done: bool, app: Vec<u8>, msg: Vec<u8>,
    ops: VecDeque<ClientOp>, out: VecDeque<Item>, gen: u64, poll: u32, stop: bool, script: usize, sent_half: bool, polling: bool,
}
#[derive(Clone, Debug)]
enum Act { Op(u64), Drop, Close, Unstall, Unhold, Poll(u64, ClientOp) }
pub struct Server {
    pub plan: ServerPlan, h: SharedHist, certs: String, me: usize, conns: BTreeMap<usize, C>, registered: usize, timers: BTreeMap<u64, (usize, Act)>, tok: u64,
    stall_until: Time, last: Vec<String>, res: BTreeMap<String, Value>, stalled: usize, r: Rng,
}
pub const PORT: u16 = 59789;

pub fn seed_tls(seed: u64) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe { RAND_set_rand_method(&METH); });
    RNG.with(|r| r.set(mix(seed ^ 0x5eed)));
}
pub fn install(w: &mut World, p: &ServerPlan, h: SharedHist, certs: &str, seed: u64) -> usize {
    seed_tls(seed);
    let me = w.actors.len();
    w.actors.push(Some(Box::new(Server { plan: p.clone(), h, certs: certs.into(), me, conns: BTreeMap::new(), registered: 0, timers: BTreeMap::new(), tok: 1, stall_until: 0, last: vec![], res: BTreeMap::new(), stalled: 0, r: Rng::derive(seed, "agent server") })));
    for ip in [0x7f000001, 0x0a000001] { w.a_listen(me, ip, PORT); }
    let k = |a: &Attempt| match a.kind.as_str() { "refuse" => 1u8, "blackhole" => 2, "noname" => 3, _ => 0 };
    w.syn_port = PORT;
    w.syn_plan = p.attempts.iter().map(k).collect();
    w.syn_then = k(&p.then);
    let ca = std::fs::read(format!("{}/ca.pem", certs)).unwrap_or_default();
    w.mkfile("/sim/ca.pem", &ca, 0o644);
    me
}
pub fn event(w: &mut World, s: usize, e: &Evt) {
    let mut a = w.actors[s].take().unwrap();
    a.any().downcast_mut::<Server>().unwrap().event(w, e);
    w.actors[s] = Some(a);
}
impl Server {
    fn timer(&mut self, w: &mut World, c: usize, a: Act, d: Time) { self.tok += 1; self.timers.insert(self.tok, (c, a)); w.actor_soon(self.me, self.tok, d.max(1000)); }
    fn log(&self, w: &World, c: usize, m: AMsg) { self.h.borrow_mut().agent.push((w.now, w.step, c, m)); }
    fn live(&self) -> Vec<usize> { self.conns.iter().filter(|x| x.1.st != St::Dead).map(|x| *x.0).collect() }
    fn event(&mut self, w: &mut World, e: &Evt) {
        match e {
            Evt::BreakConns => for c in self.live() { if !w.established(c) { continue; } w.fault("net:break"); self.end(w, c, "broken"); w.break_conn(c); },
            Evt::ServerClose { rst } => for c in self.live() {
                if *rst { w.fault("server:reset"); self.end(w, c, "server reset"); let s = w.a_side(c, self.me); w.reset_conn(c, s); }
                else if self.conns[&c].st == St::Reg { w.fault("server:close_frame"); self.frame(w, c, 8, &[3, 0xe8]); self.stop(w, c); self.timer(w, c, Act::Close, 5 * SEC); }
                else { w.fault("server:close"); self.close(w, c, "server closed"); }
            },
            Evt::ServerStall { us } => { w.fault("server:stall"); self.stall_until = self.stall_until.max(w.now + us * US); let u = self.stall_until; for c in self.live() { self.log(w, c, AMsg::Slow { until: u }); } self.timer(w, 0, Act::Unstall, u - w.now); }
            Evt::Hold { us, from_agent } => for c in self.live() { let s = w.a_side(c, self.me); w.fault("net:hold"); w.hold(c, if *from_agent { 1 - s } else { s }, true); self.log(w, c, AMsg::Slow { until: w.now + us * US }); self.timer(w, c, Act::Unhold, us * US); },
            _ => {}
        }
    }
    /// The connection is over for the server: nothing further is sent on it.
    fn stop(&mut self, w: &World, c: usize) {
        let _ = w;
        if let Some(x) = self.conns.get_mut(&c) { x.stop = true; x.gen += 1; x.ops.clear(); }
    }
    fn end(&mut self, w: &World, c: usize, why: &str) {
        self.stop(w, c);
        let Some(x) = self.conns.get_mut(&c) else { return };
        if x.st == St::Dead { return; }
        x.st = St::Dead;
        let mut h = self.h.borrow_mut();
        let out: Vec<Item> = x.out.drain(..).collect();
        for i in out { if let Some(k) = i.call { let call = &mut h.calls[k]; let got = if matches!(i.what, Do::Get { .. }) { None } else { i.got }; if let Some((m, t, s)) = got { call.out = Outc::Msg(m); call.t1 = t; call.s1 = s; } else { call.out = Outc::Lost; call.t1 = w.now; call.s1 = w.step; } } }
        let r = &mut h.attempts[x.rec];
        if r.t_end == 0 { r.t_end = w.now; r.why = why.into(); }
        h.agent.push((w.now, w.step, c, AMsg::Closed { why: why.into() }));
    }
    fn close(&mut self, w: &mut World, c: usize, why: &str) {
        if self.conns.get(&c).map_or(true, |x| x.st == St::Dead) { return; }
        let rst = self.conns[&c].at.rst;
        self.end(w, c, why);
        let s = w.a_side(c, self.me);
        if rst { w.reset_conn(c, s) } else { w.close_conn(c, s) }
    }
    /// Does nothing more on this connection until it is dropped, if ever.
    fn silent(&mut self, w: &mut World, c: usize, why: &str) {
        let hold = { let x = self.conns.get_mut(&c).unwrap(); x.st = St::Silent; x.at.hold_us };
        { let r = self.conns[&c].rec; let mut h = self.h.borrow_mut(); h.attempts[r].why = why.into(); }
        w.fault(&format!("server:{}", self.conns[&c].at.kind));
        if let Some(us) = hold { self.timer(w, c, Act::Close, us * US); }
    }
    fn accept(&mut self, w: &mut World, c: usize) {
        let n = w.syns.iter().position(|s| s.1 == c).unwrap_or(0);
        let at = self.plan.attempts.get(n).unwrap_or(&self.plan.then).clone();
        let rec = { let mut h = self.h.borrow_mut(); h.attempts.push(AttemptRec { t_syn: w.conns[c].t0, kind: at.kind.clone(), conn: c, t_end: 0, registered: None, saw_app_bytes: 0, tls_done: false, got_http: false, why: String::new(), got_register: false, n, s_http: 0 }); h.attempts.len() - 1 };
        self.log(w, c, AMsg::Open { attempt: n });
        let kind = at.kind.clone();
        self.conns.insert(c, C { n, at, rec, st: St::Tcp, ssl: None, done: false, app: vec![], msg: vec![], ops: VecDeque::new(), out: VecDeque::new(), gen: 0, poll: 0, stop: false, script: 0, sent_half: false, polling: false });
        match kind.as_str() {
            "tcp_close" => { w.fault("server:tcp_close"); let d = self.conns[&c].at.hold_us.unwrap_or(0) * US; self.timer(w, c, Act::Close, d); }
            "tcp_silent" => self.silent(w, c, "tcp silent"),
            _ => {
                let cert = match kind.as_str() { "wrong_host_cert" => "wrong", "untrusted_cert" => "untrusted", "expired_cert" => "expired", "future_cert" => "future", "self_signed_cert" => "selfsigned", _ => "server" };
                let cx = context(&self.certs, cert, kind.ends_with("12"));
                let ssl = SslStream::new(Ssl::new(&cx).unwrap(), Mem::default()).unwrap();
                let x = self.conns.get_mut(&c).unwrap();
                x.ssl = Some(ssl);
                x.st = St::Tls;
            }
        }
    }
    fn flush(&mut self, w: &mut World, c: usize) {
        let s = w.a_side(c, self.me);
        let x = self.conns.get_mut(&c).unwrap();
        if let Some(ssl) = x.ssl.as_mut() { let d: Vec<u8> = std::mem::take(&mut ssl.get_mut().tx); if !d.is_empty() && x.st != St::Dead { w.queue_data(c, s, &d); } }
    }
    fn data(&mut self, w: &mut World, c: usize, eof: bool) {
        if w.now < self.stall_until { self.stalled += 1; return; }
        let Some(x) = self.conns.get_mut(&c) else { return };
        if x.st == St::Dead { return; }
        if matches!(x.st, St::Silent | St::Tcp) { if x.st == St::Silent && x.at.kind == "no_read" { return; } let s = w.a_side(c, self.me); let _ = w.a_recv(c, s); if eof { self.close(w, c, "agent closed"); } return; }
        let s = w.a_side(c, self.me);
        let d = w.a_recv(c, s);
        if x.at.kind == "tls_garbage" && !d.is_empty() {
            let n = self.r.range(1, 300) as usize;
            let g: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
            w.queue_data(c, s, &g);
            return self.silent(w, c, "tls garbage");
        }
        let ssl = x.ssl.as_mut().unwrap();
        ssl.get_mut().rx.extend(d);
        ssl.get_mut().eof |= eof;
        if !x.done {
            match ssl.accept() {
                Ok(()) => { x.done = true; x.st = St::Http; self.h.borrow_mut().attempts[x.rec].tls_done = true; }
                Err(e) if e.code() == ErrorCode::WANT_READ => {
                    if x.at.kind == "tls_partial" {
                        let t = std::mem::take(&mut x.ssl.as_mut().unwrap().get_mut().tx);
                        if !t.is_empty() && !x.sent_half { x.sent_half = true; let k = self.r.range(1, t.len() as u64 - 1) as usize; w.queue_data(c, s, &t[..k]); return self.silent(w, c, "tls partial"); }
                    }
                    self.flush(w, c);
                    if eof { self.close(w, c, "agent closed"); }
                    return;
                }
                Err(_) => { self.flush(w, c); return self.close(w, c, "tls failed"); }
            }
        }
        let mut buf = [0u8; 16384];
        let mut over = false;
        loop {
            let x = self.conns.get_mut(&c).unwrap();
            match x.ssl.as_mut().unwrap().ssl_read(&mut buf) {
                Ok(0) => break,
                Ok(n) => { x.app.extend(&buf[..n]); let r = x.rec; self.h.borrow_mut().attempts[r].saw_app_bytes += n; }
                Err(e) => { if e.code() != ErrorCode::WANT_READ { over = true; } break; }
            }
        }
        self.flush(w, c);
        self.protocol(w, c);
        if (eof || over) && self.conns.get(&c).map_or(false, |x| x.st != St::Dead) { self.close(w, c, "agent closed"); }
    }
    fn app_send(&mut self, w: &mut World, c: usize, d: &[u8]) {
        let x = self.conns.get_mut(&c).unwrap();
        if x.st == St::Dead { return; }
        let _ = x.ssl.as_mut().unwrap().ssl_write(d);
        self.flush(w, c);
    }
    fn frame(&mut self, w: &mut World, c: usize, op: u8, d: &[u8]) {
        let hdr = |b0: u8, n: usize| { let mut o = vec![b0]; if n < 126 { o.push(n as u8) } else if n < 65536 { o.push(126); o.extend((n as u16).to_be_bytes()) } else { o.push(127); o.extend((n as u64).to_be_bytes()) } o };
        if self.plan.frag_frames && op < 8 && d.len() > 1 {
            let k = self.r.range(1, d.len() as u64 - 1) as usize;
            let mut o = hdr(op, k); o.extend(&d[..k]);
            self.app_send(w, c, &o);
            let mut o = hdr(0x80, d.len() - k); o.extend(&d[k..]);
            self.app_send(w, c, &o);
            w.fault("server:fragmented_message");
            return;
        }
        let mut o = hdr(0x80 | op, d.len());
        o.extend(d);
        self.app_send(w, c, &o);
    }
    fn message(&mut self, w: &mut World, c: usize, v: &Value) {
        let mut d = vec![];
        enc(v, &mut d);
        self.log(w, c, AMsg::Out(v.clone()));
        self.frame(w, c, 2, &d);
    }
    fn protocol(&mut self, w: &mut World, c: usize) {
        loop {
            let Some(x) = self.conns.get_mut(&c) else { return };
            match x.st {
                St::Http => {
                    let Some(k) = x.app.windows(4).position(|a| a == b"\r\n\r\n") else { return };
                    let head = String::from_utf8_lossy(&x.app[..k]).to_string();
                    x.app.drain(..k + 4);
                    let rec = x.rec;
                    let kind = x.at.kind.clone();
                    { let mut h = self.h.borrow_mut(); h.attempts[rec].got_http = true; h.attempts[rec].s_http = w.step; }
                    let key = head.lines().find_map(|l| l.split_once(':').filter(|(n, _)| n.eq_ignore_ascii_case("sec-websocket-key")).map(|(_, v)| v.trim().to_string())).unwrap_or_default();
                    if !head.starts_with("GET ") || key.is_empty() { self.log(w, c, AMsg::Bad(format!("not a WebSocket request: {}", head.chars().take(60).collect::<String>()))); }
                    match kind.as_str() {
                        "http_reject" => { w.fault("server:http_reject"); self.app_send(w, c, b"HTTP/1.1 403 Forbidden\r\ncontent-length: 0\r\n\r\n"); return self.close(w, c, "rejected"); }
                        "http_garbage" => { self.app_send(w, c, b"\x01\x02 nonsense \xff\r\n\r\n"); return self.silent(w, c, "http garbage"); }
                        "http_silent" => return self.silent(w, c, "http silent"),
                        _ => {}
                    }
                    let acc = if kind == "bad_accept" { "AAAAAAAAAAAAAAAAAAAAAAAAAAA=".to_string() } else { openssl::base64::encode_block(&openssl::sha::sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key).as_bytes())) };
                    if kind == "bad_accept" { w.fault("server:bad_accept"); }
                    let r = format!("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {}\r\n\r\n", acc);
                    self.conns.get_mut(&c).unwrap().st = St::Await;
                    if kind == "http_partial" { let b = r.as_bytes()[..r.len() / 2].to_vec(); self.app_send(w, c, &b); return self.silent(w, c, "http partial"); }
                    self.app_send(w, c, r.as_bytes());
                }
                St::Await | St::Reg | St::Closing => {
                    let b = &x.app;
                    if b.len() < 2 { return; }
                    let (fin, op, masked, l7) = (b[0] & 0x80 != 0, b[0] & 15, b[1] & 0x80 != 0, (b[1] & 127) as usize);
                    let (n, mut p) = match l7 { 126 => { if b.len() < 4 { return; } (u16::from_be_bytes([b[2], b[3]]) as usize, 4) } 127 => { if b.len() < 10 { return; } (u64::from_be_bytes(b[2..10].try_into().unwrap()) as usize, 10) } n => (n, 2) };
                    let mk = if masked { if b.len() < p + 4 { return; } p += 4; [b[p - 4], b[p - 3], b[p - 2], b[p - 1]] } else { [0; 4] };
                    if b.len() < p + n { return; }
                    let d: Vec<u8> = b[p..p + n].iter().enumerate().map(|(i, y)| y ^ mk[i % 4]).collect();
                    x.app.drain(..p + n);
                    if !masked { self.log(w, c, AMsg::Bad("unmasked frame".into())); }
                    let x = self.conns.get_mut(&c).unwrap();
                    match op {
                        0 | 1 | 2 => {
                            x.msg.extend(d);
                            if !fin { continue; }
                            let m = std::mem::take(&mut x.msg);
                            let mut at = 0;
                            match dec(&m, &mut at).filter(|_| at == m.len() && op != 1) {
                                Some(v) => self.got(w, c, v),
                                None => self.log(w, c, AMsg::Bad(format!("a message that is not MessagePack ({} bytes)", m.len()))),
                            }
                        }
                        8 => { if x.st != St::Closing && !x.stop { self.frame(w, c, 8, &d); } return self.close(w, c, "agent closed the WebSocket"); }
                        9 => self.frame(w, c, 10, &d),
                        10 => self.log(w, c, AMsg::Pong(d)),
                        _ => self.log(w, c, AMsg::Bad(format!("a frame of type {}", op))),
                    }
                }
                _ => return,
            }
        }
    }
    /// A message from the agent.
    fn got(&mut self, w: &mut World, c: usize, v: Value) {
        self.log(w, c, AMsg::In(v.clone()));
        let x = self.conns.get_mut(&c).unwrap();
        let ty = v["type"].as_str().unwrap_or("").to_string();
        if x.st == St::Await {
            let rec = x.rec;
            if ty != "Register" { self.log(w, c, AMsg::Bad(format!("{} before Register", ty))); return; }
            self.h.borrow_mut().attempts[rec].got_register = true;
            let x = self.conns.get_mut(&c).unwrap();
            match x.at.kind.as_str() {
                "ws_silent" => return self.silent(w, c, "registration not answered"),
                "wrong_first" => { w.fault("server:wrong_first"); let m = json!({"type": "ProcidListRequest"}); self.message(w, c, &m); return self.silent(w, c, "another message first"); }
                "text_first" => { w.fault("server:text_first"); self.frame(w, c, 1, b"Registered"); return self.silent(w, c, "text first"); }
                "junk_first" => { w.fault("server:junk_first"); self.frame(w, c, 2, &[0xc1, 0xff]); return self.silent(w, c, "junk first"); }
                "unregistered" => { w.fault("server:unregistered"); self.frame(w, c, 8, &[3, 0xf0]); return self.silent(w, c, "registration refused"); }
                "close_after_register" => { w.fault("server:close_after_register"); return self.close(w, c, "closed after registration"); }
                _ => {}
            }
            let delay = x.at.hold_us;
            if let (Some(us), true) = (delay, x.at.kind.starts_with("ok")) { x.at.hold_us = None; let d = us * US; self.timer(w, c, Act::Op(u64::MAX), d); return; }
            return self.admit(w, c);
        }
        match ty.as_str() {
            "ProcResult" => { if let Some(id) = v["proc_id"].as_str() { self.res.insert(id.into(), v["res"].clone()); } }
            "ProcDelete" => { if let Some(id) = v["proc_id"].as_str() { self.res.remove(id); } }
            _ => {}
        }
        if matches!(ty.as_str(), "ShutDown" | "ProcDelete") { return; }
        if ty == "Register" { self.log(w, c, AMsg::Bad("a second Register".into())); return; }
        let (t, s) = (w.now, w.step);
        let x = self.conns.get_mut(&c).unwrap();
        let id = v["proc_id"].as_str().unwrap_or("").to_string();
        match ty.as_str() {
            "ProcidList" => {
                let mut bad = None;
                let mut ended = None;
                {
                    let mut h = self.h.borrow_mut();
                    if let Some(i) = x.out.front() { if !i.fence && !matches!(i.what, Do::List) {
                        let i = x.out.pop_front().unwrap();
                        if let Some(k) = i.call {
                            let (out, t1, s1) = match i.got {
                                Some((m, t1, s1)) => (Outc::Msg(m), t1, s1),
                                None => match &i.what {
                                    Do::Delete { id } => (Outc::Msg(json!({"type": "ProcDelete", "proc_id": id})), t, s),
                                    Do::Start { .. } | Do::Signal { .. } => (Outc::Msg(json!({"type": "Ok"})), t, s),
                                    Do::Raw { .. } => (Outc::Abandoned, t, s),
                                    q => { bad = Some(format!("no answer to {:?}", q)); (Outc::Msg(json!({"type": "NoAnswer"})), t, s) }
                                },
                            };
                            let cl = &mut h.calls[k];
                            cl.out = out; cl.t1 = t1; cl.s1 = s1;
                        }
                        ended = Some(i.what);
                    } }
                    match x.out.front() {
                        Some(i) if i.fence || matches!(i.what, Do::List) => { let i = x.out.pop_front().unwrap(); if let Some(k) = i.call { let cl = &mut h.calls[k]; cl.out = Outc::Msg(v.clone()); cl.t1 = t; cl.s1 = s; } }
                        _ => bad = Some("an answer that was not asked for: ProcidList".into()),
                    }
                }
                self.last = v["proc_ids"].as_array().map(|a| a.iter().filter_map(|y| y.as_str().map(|z| z.to_string())).collect()).unwrap_or_default();
                if let Some(b) = bad { self.log(w, c, AMsg::Bad(b)); }
                let _ = ended;
                if !self.plan.pipelined && self.conns[&c].out.is_empty() && !self.conns[&c].polling { self.next(w, c); }
            }
            "ProcResult" => if let Some(i) = x.out.front_mut() { if matches!(&i.what, Do::Get { id: q } if *q == id) && i.got.as_ref().map_or(true, |g| g.0["type"] == "ProcResult") { i.got = Some((v, t, s)); } },
            _ => {
                let fits = match (&x.out.front().map(|i| (i.what.clone(), i.got.is_some(), i.fence)), ty.as_str()) {
                    (Some((Do::Output { id: q, fd, .. }, false, _)), "ProcFdData") => *q == id && v["fd"] == json!(fd),
                    (Some((Do::Get { id: q } | Do::Delete { id: q } | Do::Signal { id: q, .. } | Do::Output { id: q, .. }, false, _)), "ProcUnknown") => *q == id,
                    // It may have been ending just then.
                    (Some((Do::Get { id: q }, true, _)), "ProcUnknown") => *q == id && x.out.front().map_or(false, |i| i.got.as_ref().map_or(false, |g| g.0["type"] == "ProcResult")),
                    (Some((Do::Raw { .. }, false, _)), _) => true,
                    (Some((q, false, false)), "RequestError") => Self::same_request(&request(q).unwrap_or(Value::Null), &v["msg"]) && v["err"].as_str().map_or(false, |e| !e.is_empty()),
                    _ => false,
                };
                if fits { x.out.front_mut().unwrap().got = Some((v, t, s)); } else { let q = x.out.front().map(|i| format!("{:?}", i.what)); self.log(w, c, AMsg::Bad(format!("an answer that does not fit the request {}: {}", q.unwrap_or("(none)".into()), v).chars().take(300).collect())); }
            }
        }
    }
    fn same_request(a: &Value, b: &Value) -> bool {
        if a["type"] != b["type"] { return false; }
        for k in ["proc_id", "signum", "fd", "start", "stop"] { if a.get(k).map_or(false, |v| !v.is_null() && *v != b[k]) { return false; } }
        match (a["specs"].as_object(), b["specs"].as_object()) { (Some(p), Some(q)) => p.keys().eq(q.keys()), (None, None) => true, _ => false }
    }
    fn admit(&mut self, w: &mut World, c: usize) {
        self.message(w, c, &json!({"type": "Registered"}));
        let k = self.registered;
        self.registered += 1;
        let x = self.conns.get_mut(&c).unwrap();
        x.st = St::Reg;
        x.script = k;
        x.ops = self.plan.scripts.get(k).unwrap_or(&self.plan.final_script).iter().filter(|o| k <= self.plan.scripts.len() || !matches!(o.what, Do::Start { .. } | Do::Raw { .. })).cloned().collect();
        self.h.borrow_mut().attempts[x.rec].registered = Some(w.now);
        let d = x.at.drop_us;
        if let Some(us) = d { self.timer(w, c, Act::Drop, us * US); }
        self.log(w, c, AMsg::Registered);
        self.next(w, c);
    }
    fn next(&mut self, w: &mut World, c: usize) {
        let x = self.conns.get_mut(&c).unwrap();
        if x.stop || x.st != St::Reg { return; }
        x.gen += 1;
        let g = x.gen;
        if let Some(o) = x.ops.front() { let d = o.gap_us * US; self.timer(w, c, Act::Op(g), d); }
    }
    fn op(&mut self, w: &mut World, c: usize, o: ClientOp, first: bool) {
        if first { self.conns.get_mut(&c).unwrap().poll = 0; }
        let mut front = vec![];
        match &o.what {
            Do::GetAll => for id in &self.last { front.push(Do::Get { id: id.clone() }); },
            Do::DeleteAll => for id in &self.last { if self.res.get(id).map_or(false, |r| r["state"] != "running") { front.push(Do::Delete { id: id.clone() }); } },
            Do::OutputAll => for id in &self.last { if let Some(m) = self.res.get(id).and_then(|r| r["fds"].as_object()) { for (fd, v) in m { if !v.is_null() { front.push(Do::Output { id: id.clone(), fd: fd.clone(), start: 0, stop: None }); } } } },
            Do::Pause => {}
            Do::WaitEnd { id, poll_us, max } => {
                let x = self.conns.get_mut(&c).unwrap();
                x.poll += 1;
                let over = x.poll > *max || x.poll > 1 && self.res.get(id).map_or(true, |r| r["state"] != "running");
                x.polling = !over;
                if !over {
                    let d = *poll_us * US;
                    self.request(w, c, &Do::Get { id: id.clone() }, &o.how);
                    let x = self.conns.get_mut(&c).unwrap();
                    x.gen += 1;
                    let g = x.gen;
                    self.timer(w, c, Act::Poll(g, o), d);
                    return;
                }
            }
            q => { self.request(w, c, q, &o.how); if self.plan.pipelined { self.next(w, c); } return; }
        }
        let x = self.conns.get_mut(&c).unwrap();
        for q in front.into_iter().rev() { x.ops.push_front(ClientOp { gap_us: 0, what: q, how: o.how.clone() }); }
        self.next(w, c);
    }
    fn request(&mut self, w: &mut World, c: usize, q: &Do, how: &How) {
        let nth = self.conns[&c].n;
        let call = |s: &Server, q: &Do| { let mut h = s.h.borrow_mut(); let nth = h.calls.iter().filter(|k| k.conn == c && k.client.starts_with('a')).count(); h.calls.push(Call { client: format!("a{}", c), conn: c, nth, req: q.clone(), how: how.clone(), t0: w.now, s0: w.step, t_sent: w.now, t1: 0, s1: 0, out: Outc::Pending }); h.calls.len() - 1 };
        let _ = nth;
        let k = call(self, q);
        self.conns.get_mut(&c).unwrap().out.push_back(Item { call: Some(k), what: q.clone(), fence: false, got: None });
        let fk = if matches!(q, Do::List) { None } else { let k = call(self, &Do::List); self.conns.get_mut(&c).unwrap().out.push_back(Item { call: Some(k), what: Do::List, fence: true, got: None }); Some(k) };
        match q {
            Do::Raw { bytes, .. } => {
                w.fault("server:odd_message");
                let hx = |h: &str| -> Vec<u8> { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() };
                if let Some(h) = bytes.strip_prefix("hex:") { self.frame(w, c, 2, &hx(h)); }
                else if let Some(h) = bytes.strip_prefix("msg:") { let v: Value = serde_json::from_str(h).unwrap_or(Value::Null); self.message(w, c, &v); }
                else if let Some(h) = bytes.strip_prefix("text:") { self.frame(w, c, 1, h.as_bytes()); }
                else if let Some(h) = bytes.strip_prefix("ping:") { self.frame(w, c, 9, h.as_bytes()); }
                else if let Some(h) = bytes.strip_prefix("pong:") { self.frame(w, c, 10, h.as_bytes()); }
                else if let Some(h) = bytes.strip_prefix("frame:") { let d = hx(h); self.app_send(w, c, &d); self.timer(w, c, Act::Drop, 4 * SEC); }
                else if let Some(h) = bytes.strip_prefix("tcp:") { let d = hx(h); let s = w.a_side(c, self.me); w.queue_data(c, s, &d); self.timer(w, c, Act::Drop, 4 * SEC); }
            }
            q => { let m = request(q).unwrap_or(Value::Null); self.message(w, c, &m); }
        }
        if fk.is_some() { self.message(w, c, &json!({"type": "ProcidListRequest"})); }
    }
}
/// The message for a request.
pub fn request(q: &Do) -> Option<Value> {
    Some(match q {
        Do::Start { specs } => json!({"type": "ProcStartRequest", "specs": specs}),
        Do::List => json!({"type": "ProcidListRequest"}),
        Do::Get { id } => json!({"type": "ProcResultRequest", "proc_id": id}),
        Do::Delete { id } => json!({"type": "ProcDeleteRequest", "proc_id": id}),
        Do::Signal { id, sig } => json!({"type": "ProcSignalRequest", "proc_id": id, "signum": crate::oracle::signum(sig).unwrap_or(0)}),
        Do::Output { id, fd, start, stop } => json!({"type": "ProcFdDataRequest", "proc_id": id, "fd": fd, "start": start, "stop": stop}),
        _ => return None,
    })
}
impl Actor for Server {
    fn on(&mut self, w: &mut World, _me: usize, ev: AEv) {
        match ev {
            AEv::Accept(c) => self.accept(w, c),
            AEv::Data(c) => self.data(w, c, false),
            AEv::Eof(c) => { if w.now < self.stall_until { return; } self.data(w, c, true) }
            AEv::Rst(c) => self.end(w, c, "reset by the agent"),
            AEv::Timer(k) => {
                let Some((c, a)) = self.timers.remove(&k) else { return };
                match a {
                    Act::Unstall => if w.now >= self.stall_until { for c in self.live() { let s = w.a_side(c, self.me); let f = w.conns[c].s[s].fin; self.data(w, c, f); } },
                    Act::Unhold => for s in 0..2 { w.hold(c, s, false); },
                    Act::Close => self.close(w, c, "dropped by the server"),
                    Act::Drop => { if self.conns[&c].st != St::Dead { w.fault("server:drop"); self.close(w, c, "dropped by the server"); } }
                    Act::Op(u64::MAX) => if self.conns[&c].st == St::Await { self.admit(w, c) },
                    Act::Op(g) => { let x = self.conns.get_mut(&c).unwrap(); if x.gen == g && x.st == St::Reg { if let Some(o) = x.ops.pop_front() { self.op(w, c, o, true); } } }
                    Act::Poll(g, o) => { let x = &self.conns[&c]; if x.st == St::Reg && !x.stop && (x.gen == g || true) { let _ = g; self.op(w, c, o, false); } }
                }
            }
            _ => {}
        }
    }
    fn any(&mut self) -> &mut dyn Any { self }
}
