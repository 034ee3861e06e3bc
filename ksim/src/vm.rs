//! Scripted programs: what the supervised processes do.  One simulated system
//! call per step; blocking, signals and descriptors are the simulated kernel's.
use crate::kernel::*;
use crate::rng::*;
use libc::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "op", rename_all = "snake_case")]
pub enum POp {
    /// Writes n bytes derived from key, in chunks.  kind: ascii, utf8, bin, lines, seq.
    Write { fd: i32, n: usize, key: u64, #[serde(default = "ascii")] kind: String, #[serde(default)] chunk: usize, #[serde(default)] gap_us: u64 },
    /// Reads to end of file.
    ReadEof { fd: i32 },
    /// Reads up to n bytes (one call's worth at a time).
    ReadN { fd: i32, n: usize },
    /// Copies until end of file.
    Cat { from: i32, to: i32 },
    Sleep { us: u64 },
    Exit { code: i32 },
    KillSelf { sig: i32 },
    Ignore { sig: i32 },
    /// On SIGTERM: exit with code after a delay.
    OnTerm { us: u64, code: i32 },
    Fork { prog: Program },
    Close { fd: i32 },
    Comm { name: String },
    /// Sets its name to a byte string (hex); names need not be text.
    CommHex { hex: String },
    Forever,
    Seek { fd: i32, pos: u64 },
}
fn ascii() -> String { "ascii".into() }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(transparent)]
pub struct Program(pub Vec<POp>);

pub struct Vm {
    pub ops: Vec<POp>,
    pub pc: usize,
    /// Progress within the current op.
    pub off: usize,
    pub buf: Vec<u8>,
    pub wait: Option<(i32, bool)>,
    pub gen: u64,
    pub rng: Rng,
    pub term: Option<(u64, i32)>,
    pub exit_at: Option<(Time, i32)>,
    pub sleeping: Option<Time>,
    pub forever: bool,
    pub steps: u32,
}
impl Vm {
    pub fn new(p: Program, seed: u64) -> Vm {
        Vm { ops: p.0, pc: 0, off: 0, buf: vec![], wait: None, gen: 0, rng: Rng::derive(seed, "vm"), term: None, exit_at: None, sleeping: None, forever: false, steps: 0 }
    }
}

pub fn gen_data(n: usize, key: u64, kind: &str) -> Vec<u8> {
    let mut r = Rng::derive(key, kind);
    let mut v = Vec::with_capacity(n + 4);
    match kind {
        "bin" => while v.len() < n { v.extend(r.next().to_le_bytes()); },
        "utf8" => while v.len() < n {
            let c = match r.below(5) { 0 => 'a', 1 => 'é', 2 => '€', 3 => '𝄞', _ => (b'0' + r.below(10) as u8) as char };
            let mut b = [0u8; 4];
            let s = c.encode_utf8(&mut b);
            if v.len() + s.len() > n { while v.len() < n { v.push(b'.'); } } else { v.extend(s.as_bytes()); }
        },
        "lines" => { let mut i = 0; while v.len() < n { v.extend(format!("{:x}:{}\n", key & 0xffff, i).as_bytes()); i += 1; } }
        // Mostly text, sometimes an invalid byte.
        "bad8" => while v.len() < n { let x = r.below(40); if x == 0 { v.push(0x80 + r.below(128) as u8) } else { v.push(b'a' + (x % 26) as u8) } },
        _ => while v.len() < n { v.push(b'!' + r.below(90) as u8); },
    }
    v.truncate(n);
    v
}

impl World {
    fn vm(&mut self, pid: Pid) -> &mut Vm { match &mut self.pm(pid).kind { PKind::Script(v) => v, _ => panic!("not a script") } }
    fn vm_at(&mut self, pid: Pid, t: Time) {
        let v = self.vm(pid);
        v.gen += 1;
        let g = v.gen;
        self.at(t, Ev::Vm(pid, g));
    }
    fn vm_soon(&mut self, pid: Pid) {
        let b = self.sched.base_us.max(1);
        let mut d = 300 + self.vm(pid).rng.below(b * US);
        // Endless copying (a program wired to itself) slows down.
        self.vm(pid).steps += 1;
        if self.vm(pid).steps > 4000 { d += 200 * MS; }
        let n = self.now;
        self.vm_at(pid, n + d);
    }
    pub fn vm_schedule(&mut self, pid: Pid) {
        if !self.live(pid) { return; }
        if let Some(t) = self.vm(pid).sleeping { let n = self.now.max(t); self.vm_at(pid, n); return; }
        self.vm_soon(pid);
    }
    /// Wakes scripts whose descriptor became ready.
    pub fn vm_wake(&mut self) {
        let mut v = vec![];
        for p in self.procs.values() {
            if p.state != PState::Live || p.stopped { continue; }
            if let PKind::Script(vm) = &p.kind {
                if let Some((fd, rd)) = vm.wait {
                    let m = p.fds.get(&fd).map_or(!0, |e| self.mask(e.of));
                    let want = if rd { EPOLLIN | EPOLLHUP | EPOLLERR } else { EPOLLOUT | EPOLLHUP | EPOLLERR } as u32;
                    // A pipe is writable for a blocked writer as soon as there is any room.
                    let room = !rd && p.fds.get(&fd).map_or(false, |e| matches!(&self.of(e.of).kind, OKind::PipeW(q) if self.pipes[*q].buf.len() < self.pipes[*q].cap));
                    if m & want != 0 || room { v.push(p.pid); }
                }
            }
        }
        for p in v { self.vm(p).wait = None; self.vm_soon(p); }
    }
    /// Does the script handle the signal itself?
    pub fn vm_signal(&mut self, pid: Pid, sig: i32) -> bool {
        if sig != SIGTERM { return false; }
        if let Some((us, code)) = self.vm(pid).term {
            if self.vm(pid).exit_at.is_none() {
                let t = self.now + us * US;
                self.vm(pid).exit_at = Some((t, code));
                if us == 0 { self.terminate(pid, (code & 0xff) << 8); return true; }
                self.at(t, Ev::Vm(pid, u64::MAX));
            }
            return true;
        }
        false
    }
    pub fn vm_step(&mut self, pid: Pid, gen: u64) {
        if !self.live(pid) { return; }
        if !matches!(self.proc(pid).kind, PKind::Script(_)) { return; }
        if let Some((t, c)) = self.vm(pid).exit_at {
            if t <= self.now && !self.proc(pid).stopped { self.terminate(pid, (c & 0xff) << 8); return; }
        }
        if gen == u64::MAX || self.vm(pid).gen != gen { return; }
        if self.proc(pid).stopped { return; }
        self.inter_hash = hash2(self.inter_hash, pid as u64);
        let pc = self.vm(pid).pc;
        let op = match self.vm(pid).ops.get(pc) { Some(o) => o.clone(), None => { self.terminate(pid, 0); return; } };
        let mut done = true;
        let mut gap = 0;
        match op {
            POp::Write { fd, n, key, kind, chunk, gap_us } => {
                if self.vm(pid).off == 0 && self.vm(pid).buf.is_empty() && n > 0 { self.vm(pid).buf = gen_data(n, key, &kind); }
                done = false;
                let off = self.vm(pid).off;
                let end = if chunk == 0 { n } else { n.min(off + chunk) };
                if off >= n { done = true; self.vm(pid).buf.clear(); self.vm(pid).off = 0; }
                else {
                    let d = self.vm(pid).buf[off..end].to_vec();
                    match self.script_write(pid, fd, &d) {
                        None => return,
                        Some(Ok(k)) => { self.vm(pid).off += k; gap = gap_us; }
                        Some(Err(_)) => { self.vm(pid).buf.clear(); self.vm(pid).off = 0; done = true; }
                    }
                }
            }
            POp::ReadEof { fd } => match self.script_read(pid, fd, 4096) {
                None => return,
                Some(Ok(d)) => { done = d.is_empty(); }
                Some(Err(_)) => {}
            },
            POp::ReadN { fd, n } => {
                let off = self.vm(pid).off;
                match self.script_read(pid, fd, (n - off).min(4096)) {
                    None => return,
                    Some(Ok(d)) => { let v = self.vm(pid); v.off += d.len(); done = d.is_empty() || v.off >= n; if done { v.off = 0; } }
                    Some(Err(_)) => { self.vm(pid).off = 0; }
                }
            }
            POp::Cat { from, to } => {
                done = false;
                if self.vm(pid).buf.is_empty() {
                    match self.script_read(pid, from, 4096) {
                        None => return,
                        Some(Ok(d)) => { if d.is_empty() { done = true; } else { self.vm(pid).buf = d; } }
                        Some(Err(_)) => { done = true; }
                    }
                } else {
                    let d = self.vm(pid).buf.clone();
                    match self.script_write(pid, to, &d) {
                        None => return,
                        Some(Ok(k)) => { self.vm(pid).buf.drain(..k); }
                        Some(Err(_)) => { self.vm(pid).buf.clear(); done = true; }
                    }
                }
            }
            POp::Sleep { us } => {
                let now = self.now;
                match self.vm(pid).sleeping {
                    None => {
                        let mut t = self.now + us * US;
                        let q = self.sched.quantum_us * US;
                        if q > 0 { t = (t + q - 1) / q * q; }
                        self.vm(pid).sleeping = Some(t);
                        self.vm_at(pid, t);
                        return;
                    }
                    Some(t) if t > now => { self.vm_at(pid, t); return; }
                    Some(_) => { self.vm(pid).sleeping = None; }
                }
            }
            POp::Exit { code } => { self.terminate(pid, (code & 0xff) << 8); return; }
            POp::KillSelf { sig } => { self.pm(pid).disp[sig as usize] = Disp::Default; self.vm(pid).term = None; self.post_signal(pid, sig); if !self.live(pid) { return; } }
            POp::Ignore { sig } => { self.pm(pid).disp[sig as usize] = Disp::Ignore; }
            POp::OnTerm { us, code } => { self.vm(pid).term = Some((us, code)); }
            POp::Fork { prog } => { self.spawn_grandchild(pid, prog); }
            POp::Close { fd } => { if let Some(e) = self.pm(pid).fds.remove(&fd) { self.unref(e.of); } }
            POp::Comm { name } => { self.pm(pid).comm = name.into_bytes().into_iter().take(15).collect(); }
            POp::CommHex { hex } => { self.pm(pid).comm = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap_or(b'?')).take(15).collect(); }
            POp::Seek { fd, pos } => { if let Some(e) = self.proc(pid).fds.get(&fd).copied() { self.of_mut(e.of).pos = pos; } }
            POp::Forever => { self.vm(pid).forever = true; return; }
        }
        if !self.live(pid) { return; }
        if done { self.vm(pid).pc += 1; }
        if gap > 0 { let n = self.now; self.vm_at(pid, n + gap * US); } else { self.vm_soon(pid); }
    }
    fn script_write(&mut self, pid: Pid, fd: i32, d: &[u8]) -> Option<Result<usize, i32>> {
        let of = match self.proc(pid).fds.get(&fd) { Some(e) => e.of, None => { self.record(Rec::WriteErr { pid, fd, err: EBADF }); return Some(Err(EBADF)); } };
        let what = self.describe(of).what;
        match self.sys_write(pid, fd, of, d, true, None) {
            Out::Done(r) if r.ret >= 0 => { let k = r.ret as usize; self.record(Rec::Write { pid, fd, what, data: d[..k].to_vec() }); Some(Ok(k)) }
            Out::Done(r) if r.err == EAGAIN => { self.vm(pid).wait = Some((fd, false)); None }
            Out::Done(r) => { self.record(Rec::WriteErr { pid, fd, err: r.err }); Some(Err(r.err)) }
            Out::Block(_) => { self.vm(pid).wait = Some((fd, false)); None }
            Out::Gone => { self.record(Rec::WriteErr { pid, fd, err: EPIPE }); None }
        }
    }
    fn script_read(&mut self, pid: Pid, fd: i32, n: usize) -> Option<Result<Vec<u8>, i32>> {
        let of = match self.proc(pid).fds.get(&fd) { Some(e) => e.of, None => return Some(Err(EBADF)) };
        let what = self.describe(of).what;
        match self.sys_read(pid, fd, of, n, true, usize::MAX) {
            Out::Done(r) if r.ret > 0 => { self.record(Rec::ReadData { pid, fd, what, data: r.data.clone() }); Some(Ok(r.data)) }
            Out::Done(r) if r.ret == 0 => { self.record(Rec::ReadEof { pid, fd, what }); Some(Ok(vec![])) }
            Out::Done(r) if r.err == EAGAIN => { self.vm(pid).wait = Some((fd, true)); None }
            Out::Done(r) => Some(Err(r.err)),
            Out::Block(_) => { self.vm(pid).wait = Some((fd, true)); None }
            Out::Gone => None,
        }
    }
}
