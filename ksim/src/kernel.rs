//! The simulated kernel: descriptors, pipes, files, TCP, epoll, signals,
//! processes, clock.  One call is serviced at a time; everything random comes
//! from the run's seed.
use crate::rng::*;
use libc::*;
use std::any::Any;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;

pub type Time = u64;
pub type Pid = i32;
pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

macro_rules! ops { ($($n:ident),* $(,)?) => {
    #[allow(non_camel_case_types, dead_code)] #[repr(u32)] #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
    pub enum Op { NONE = 0, $($n),* }
    pub const OP_NAMES: &[&str] = &["NONE", $(stringify!($n)),*];
    const OPS: &[Op] = &[Op::NONE, $(Op::$n),*];
} }
ops!(
    READ, WRITE, PREAD, PWRITE, CLOSE, DUP, DUP3, FCNTL, IOCTL, OPEN, PIPE2, SOCKETPAIR, EVENTFD,
    EPOLL_CREATE, EPOLL_CTL, EPOLL_WAIT, POLL, SOCKET, BIND, LISTEN, ACCEPT, CONNECT, SHUTDOWN,
    GETSOCKOPT, SETSOCKOPT, GETSOCKNAME, GETPEERNAME, SEND, RECV, FORK, EXECVE, EXIT, ABORT, WAIT4,
    KILL, SIGACTION, SIGMASK, SETSID, SETPGID, GETPPID, MKSTEMP, UNLINK, RENAME, STAT, FSTAT, LSTAT,
    READLINK, FTRUNCATE, LSEEK, FSYNC, NANOSLEEP, RESOLVE, THREAD_CREATE, THREAD_START, THREAD_EXIT,
    THREAD_JOIN, FUTEX_WAIT, FUTEX_WAKE, ACCESS, MKDIR, WAITID, PIDFD_OPEN, UNKNOWN, CHDIR, CLOSE_RANGE,
);

#[derive(Clone, Debug)]
pub struct Req {
    pub op: Op,
    pub a: [i64; 6],
    pub data: Vec<u8>,
}

#[derive(Default)]
pub struct Rep {
    pub ret: i64,
    pub err: i32,
    pub data: Vec<u8>,
    pub flags: u32,
    pub passfd: Option<i32>,
}
pub fn ok(r: i64) -> Out { Out::Done(Rep { ret: r, ..Default::default() }) }
pub fn okd(r: i64, d: Vec<u8>) -> Out { Out::Done(Rep { ret: r, data: d, ..Default::default() }) }
pub fn er(e: i32) -> Out { Out::Done(Rep { ret: -1, err: e, ..Default::default() }) }

pub enum Out {
    Done(Rep),
    Block(Option<Time>),
    Gone,
}

// ------------------------------------------------------------------ objects
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub readers: u32,
    pub writers: u32,
    /// Every byte ever written (count).
    pub total: u64,
    pub creator: Pid,
}
#[derive(Default, Clone)]
pub struct Inode {
    pub data: Vec<u8>,
    pub mode: u32,
    pub nlink: u32,
    pub opens: u32,
    pub is_dir: bool,
    pub is_fifo: Option<usize>,
    /// Writes beyond this size fail with ENOSPC.
    pub limit: Option<u64>,
    pub temp: bool,
    pub write_err: Option<i32>,
}
pub struct EpItem { pub events: u32, pub data: u64, pub pending: Option<u64> }
#[derive(Default)]
pub struct Epoll { pub items: BTreeMap<(i32, usize), EpItem> }

pub struct UnixPair { pub buf: [VecDeque<u8>; 2], pub closed: [bool; 2] }

pub struct Listener { pub ip: u32, pub port: u16, pub of: Option<usize>, pub actor: Option<usize>, pub backlog: VecDeque<usize>, pub cap: usize }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Owner { Of(usize), Actor(usize), Backlog, Closed }
#[derive(Clone, Debug)]
pub enum Seg { Data(Vec<u8>), Fin, Rst }
pub struct Side {
    pub owner: Owner,
    pub rbuf: VecDeque<u8>,
    pub fin: bool,
    pub err: Option<i32>,
    pub dead: bool,
    pub sent_fin: bool,
    pub shut_rd: bool,
    /// Bytes sent by this side not yet read by the peer.
    pub unread: usize,
    pub cap: usize,
    pub q: VecDeque<(Time, Seg)>,
    pub last: Time,
    /// Segments from this side are held.
    pub held: bool,
    pub sent_total: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CState { Connecting, Est, Refused(i32) }
pub struct Conn { pub s: [Side; 2], pub state: CState, pub dst: (u32, u16), pub src_port: u16, pub t0: Time, pub reported: bool }

pub enum OKind {
    PipeR(usize), PipeW(usize), Reg(usize), Mem(Vec<u8>), Null, Sink(usize), Eventfd(u64), Epoll(Epoll),
    Unix(usize, usize), Listener(usize), Conn(usize, usize), Sock(Option<(u32, u16)>), PidFd(Pid),
}
pub struct OFile {
    pub refs: u32,
    pub kind: OKind,
    pub flags: i32,
    pub pos: u64,
    pub watchers: BTreeSet<usize>,
    /// Who opened it, and at which step (for leak reports).
    pub by: Pid,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FdEnt { pub of: usize, pub cloexec: bool }

pub struct Sink { pub data: Vec<u8>, pub by: Vec<(Pid, usize)>, pub err: Option<i32>, pub limit: Option<u64>, pub short: bool }

// ------------------------------------------------------------------ processes
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Disp { Default, Ignore, Handler { restart: bool } }

#[derive(Clone, Debug, PartialEq)]
pub enum PState { Live, Zombie(i32), Reaped }

#[derive(Clone, Debug, Default)]
pub struct Image { pub path: String, pub argv: Vec<Vec<u8>>, pub env: Vec<Vec<u8>> }

pub enum PKind { Real, Script(crate::vm::Vm) }

pub struct Proc {
    pub pid: Pid,
    pub ppid: Pid,
    pub sid: Pid,
    pub pgid: Pid,
    pub fds: BTreeMap<i32, FdEnt>,
    pub state: PState,
    pub kind: PKind,
    pub disp: [Disp; 65],
    pub pending: u64,
    pub blocked: u64,
    pub image: Image,
    pub comm: Vec<u8>,
    pub start: Time,
    pub end: Time,
    pub role: Role,
    pub sys_real: i32,
    pub stopped: bool,
    /// Memory in use as of its last call, of processes that run real code.
    pub heap: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Role { Main(usize), Child(usize), Script, Foreign }

pub enum TState { Running, Ready, Blocked, Dead }
pub struct Task {
    pub pid: Pid,
    pub tid: usize,
    pub ch: Option<UnixStream>,
    pub st: TState,
    pub req: Option<Req>,
    pub deadline: Option<Time>,
    pub gen: u64,
    pub rng: Rng,
    pub thread: bool,
    pub started: bool,
    pub pthread: i64,
    pub woken: bool,
    /// Bytes of a blocking pipe write done so far.
    pub part: usize,
}

/// What really happened, as the oracles see it.
#[derive(Clone, Debug)]
pub enum Rec {
    Fork { parent: Pid, pid: Pid },
    ForkFail { parent: Pid },
    Exec { pid: Pid, path: String, argv: Vec<Vec<u8>>, env: Vec<Vec<u8>>, fds: BTreeMap<i32, FdDesc>, sid: Pid, ignored: u64, blocked: u64 },
    ExecFail { pid: Pid, err: i32 },
    Exit { pid: Pid, status: i32, parent: Pid },
    Reap { pid: Pid, by: Pid, status: i32 },
    Signal { from: Pid, to: Pid, sig: i32, ok: bool },
    Write { pid: Pid, fd: i32, what: FdWhat, data: Vec<u8> },
    WriteErr { pid: Pid, fd: i32, err: i32 },
    ReadData { pid: Pid, fd: i32, what: FdWhat, data: Vec<u8> },
    ReadEof { pid: Pid, fd: i32, what: FdWhat },
    /// What a process was told about another by /proc.
    ProcFile { by: Pid, pid: Pid, stat: bool, data: Vec<u8> },
    Fault { what: String },
    ChildRuns { pid: Pid, op: &'static str },
    Unknown { op: String },
}
#[derive(Clone, Debug, PartialEq)]
pub struct FdDesc { pub of: usize, pub what: FdWhat, pub access: i32, pub append: bool, pub nonblock: bool }
#[derive(Clone, Debug, PartialEq)]
pub enum FdWhat { PipeR(usize), PipeW(usize), File { ino: usize, pos: u64 }, Null, Sink(usize), Socket, Epoll, Other }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev { Serve(usize, u64), Timeout(usize, u64), Vm(Pid, u64), Net(usize, usize), ConnArrive(usize), ConnDone(usize, i32), Actor(usize, u64), Sig(Pid, i32), Nop }

pub enum AEv { Timer(u64), Connected(usize), Failed(usize, i32), Data(usize), Eof(usize), Rst(usize), Space(usize), Accept(usize) }
pub trait Actor {
    fn on(&mut self, w: &mut World, me: usize, ev: AEv);
    fn any(&mut self) -> &mut dyn Any;
}

// ------------------------------------------------------------------ configuration
use serde::{Deserialize, Serialize};
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// "main", "child<k>" (k-th fork, from 0), or "any".
    pub who: String,
    pub op: String,
    /// Fails the nth matching call (from 0) ...
    pub nth: u32,
    /// ... and this many following it.
    pub count: u32,
    pub errno: i32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Sched {
    pub seed: u64,
    /// Microseconds a call usually takes (upper bound).
    pub base_us: u64,
    /// Probability and maximum (us) of a stall at any call.
    pub stall_p: f64,
    pub stall_max_us: u64,
    /// Calls that are likely to stall.
    pub hot: Vec<String>,
    pub hot_p: f64,
    /// No stalls after this many calls.
    pub calm_after: u64,
    /// Short reads and partial writes.
    pub short_p: f64,
    pub net_lat_us: u64,
    pub net_jit_us: u64,
    pub frag_p: f64,
    pub sock_cap: usize,
    pub pipe_cap: usize,
    /// Quantum for scripted sleeps (us): makes events coincide.
    pub quantum_us: u64,
}
impl Default for Sched {
    fn default() -> Self {
        Sched { seed: 1, base_us: 8, stall_p: 0.0, stall_max_us: 1000, hot: vec![], hot_p: 0.0, calm_after: u64::MAX, short_p: 0.0, net_lat_us: 50, net_jit_us: 50, frag_p: 0.0, sock_cap: 65536, pipe_cap: 65536, quantum_us: 0 }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub calls: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
}

pub struct World {
    pub now: Time,
    pub wall0: i64,
    /// Since when it was so.
    pub walls: Vec<(Time, i64)>,
    /// The supervisor at certain moments: memory in use, connections, children, other descriptors.
    pub marks: Vec<(Time, u64, usize, usize, usize)>,
    seq: u64,
    queue: BinaryHeap<Reverse<(Time, u64, Ev)>>,
    pub sched: Sched,
    pub faults: Vec<Fault>,
    fault_ct: BTreeMap<(String, String), u32>,
    pub procs: BTreeMap<Pid, Proc>,
    pub tasks: Vec<Task>,
    pub ofs: Vec<Option<OFile>>,
    pub pipes: Vec<Pipe>,
    pub inodes: Vec<Inode>,
    pub fs: BTreeMap<String, usize>,
    pub unix: Vec<UnixPair>,
    pub sinks: Vec<Sink>,
    pub listeners: Vec<Listener>,
    pub conns: Vec<Conn>,
    pub actors: Vec<Option<Box<dyn Actor>>>,
    pub programs: BTreeMap<String, crate::vm::Program>,
    pub exes: BTreeMap<String, ()>,
    pub hosts: BTreeMap<String, u32>,
    /// What becomes of connection attempts to the agent server: 0 reaches it, 1 refused,
    /// 2 no answer, 3 its name is not found.
    pub syn_port: u16,
    pub syn_plan: VecDeque<u8>,
    pub syn_then: u8,
    /// (time, connection, kind)
    pub syns: Vec<(Time, usize, u8)>,
    pub refuse: BTreeSet<(u32, u16)>,
    pub blackhole: BTreeSet<(u32, u16)>,
    pub next_pid: Pid,
    pub nforks: usize,
    pub nmain: usize,
    pub rec: Vec<(Time, u64, Rec)>,
    pub step: u64,
    pub max_steps: u64,
    pub trace_hash: u64,
    pub inter_hash: u64,
    pub trace: Option<Vec<String>>,
    pub stats: Stats,
    pub rng: Rng,
    pub net_rng: Rng,
    pub real: Vec<std::process::Child>,
    pub hang: Option<String>,
    pub pid_reuse: Vec<Pid>,
    tmp_ct: u64,
    dirty: bool,
    epseq: u64,
    pub stop: bool,
    /// Supervisor processes which may legitimately use supervisor calls.
    pub mains: BTreeSet<Pid>,
    pub accept_errs: VecDeque<i32>,
    pub max_fds: i32,
    pub min_gap: u64,
    pub step_limit_hit: bool,
    /// Total time of all stalls so far; limited, so that bounded time can be judged.
    pub stalled: Time,
    /// When the supervisor began to listen.
    pub listened: Option<Time>,
    /// When the supervisor first waited for events, and first handled each signal.
    pub first_wait: Option<Time>,
    pub first_handler: BTreeMap<i32, Time>,
    /// Reuse the lowest free process id at once.
    pub reuse: bool,
    /// The supervisor's descriptors when it first waited for events, by kind.
    pub base_fds: BTreeMap<String, usize>,
    /// Connections an injected accept() failure took away from the supervisor.
    pub aborted: Vec<usize>,
}

fn u32le(d: &[u8], o: usize) -> u32 { u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) }
pub const O_ACC: i32 = O_ACCMODE;

impl World {
    pub fn new(sched: Sched, faults: Vec<Fault>) -> World {
        let seed = sched.seed;
        let mut w = World {
            now: 1_000 * SEC, wall0: 1_700_000_000 * SEC as i64, walls: vec![(0, 1_700_000_000 * SEC as i64)], marks: vec![], seq: 0, queue: BinaryHeap::new(), sched, faults, fault_ct: BTreeMap::new(),
            procs: BTreeMap::new(), tasks: vec![], ofs: vec![], pipes: vec![], inodes: vec![], fs: BTreeMap::new(), unix: vec![], sinks: vec![],
            listeners: vec![], conns: vec![], actors: vec![], programs: BTreeMap::new(), exes: BTreeMap::new(), hosts: BTreeMap::new(), syn_port: 0, syn_plan: VecDeque::new(), syn_then: 0, syns: vec![],
            refuse: BTreeSet::new(), blackhole: BTreeSet::new(), next_pid: 100, nforks: 0, nmain: 0, rec: vec![], step: 0, max_steps: 2_000_000,
            trace_hash: seed, inter_hash: 0, trace: None, stats: Stats::default(), rng: Rng::derive(seed, "world"), net_rng: Rng::derive(seed, "net"),
            real: vec![], hang: None, pid_reuse: vec![], tmp_ct: 0, dirty: false, epseq: 0, stop: false, mains: BTreeSet::new(), accept_errs: VecDeque::new(), max_fds: 600, min_gap: 0, step_limit_hit: false, stalled: 0, listened: None, first_wait: None, first_handler: BTreeMap::new(), reuse: false, base_fds: BTreeMap::new(), aborted: vec![],
        };
        for d in ["/", "/tmp", "/dev", "/proc", "/bin", "/sim", "/out"] {
            w.mkfile(d, b"", 0o755);
            let i = w.fs[d];
            w.inodes[i].is_dir = true;
            w.inodes[i].mode = 0o040755;
        }
        w
    }

    // -------------------------------------------------------------- utilities
    pub fn at(&mut self, t: Time, ev: Ev) {
        self.seq += 1;
        self.queue.push(Reverse((t.max(self.now), self.seq, ev)));
    }
    pub fn after(&mut self, d: Time, ev: Ev) { self.at(self.now + d, ev) }
    pub fn record(&mut self, r: Rec) {
        if let Some(t) = &mut self.trace { t.push(format!("{:>14} #{} {:?}", self.now - 1000 * SEC, self.step, brief(&r))); }
        self.rec.push((self.now, self.step, r));
    }
    pub fn note(&mut self, s: String) {
        self.trace_hash = hash_str(self.trace_hash, &s);
        if let Some(t) = &mut self.trace { t.push(format!("{:>14} #{} {}", self.now - 1000 * SEC, self.step, s)); }
    }
    pub fn probe(&mut self, s: &str) { *self.stats.probes.entry(s.to_string()).or_insert(0) += 1; }
    pub fn fault(&mut self, s: &str) { *self.stats.faults.entry(s.to_string()).or_insert(0) += 1; self.note(format!("FAULT {}", s)); }
    pub fn mkfile(&mut self, path: &str, data: &[u8], mode: u32) -> usize {
        self.inodes.push(Inode { data: data.to_vec(), mode: 0o100000 | mode, nlink: 1, ..Default::default() });
        let i = self.inodes.len() - 1;
        self.fs.insert(path.to_string(), i);
        i
    }
    pub fn mkfifo(&mut self, path: &str) {
        let p = self.new_pipe(0);
        self.pipes[p].readers = 0;
        self.pipes[p].writers = 0;
        let i = self.mkfile(path, b"", 0o666);
        self.inodes[i].is_fifo = Some(p);
        self.inodes[i].mode = 0o010666;
    }
    fn new_pipe(&mut self, creator: Pid) -> usize {
        self.pipes.push(Pipe { buf: VecDeque::new(), cap: self.sched.pipe_cap, readers: 1, writers: 1, total: 0, creator });
        self.pipes.len() - 1
    }
    pub fn new_of(&mut self, kind: OKind, flags: i32, by: Pid) -> usize {
        self.ofs.push(Some(OFile { refs: 0, kind, flags, pos: 0, watchers: BTreeSet::new(), by }));
        self.ofs.len() - 1
    }
    pub fn of(&self, i: usize) -> &OFile { self.ofs[i].as_ref().unwrap() }
    pub fn of_mut(&mut self, i: usize) -> &mut OFile { self.ofs[i].as_mut().unwrap() }
    pub fn proc(&self, p: Pid) -> &Proc { &self.procs[&p] }
    pub fn pm(&mut self, p: Pid) -> &mut Proc { self.procs.get_mut(&p).unwrap() }
    pub fn live(&self, p: Pid) -> bool { self.procs.get(&p).map_or(false, |p| p.state == PState::Live) }

    pub fn install(&mut self, pid: Pid, fd: i32, of: usize, cloexec: bool) {
        self.of_mut(of).refs += 1;
        let old = self.pm(pid).fds.insert(fd, FdEnt { of, cloexec });
        if let Some(o) = old { self.unref(o.of); }
    }
    fn lowest(&self, pid: Pid, min: i32) -> i32 {
        let mut n = min;
        for (&f, _) in self.proc(pid).fds.range(min..) { if f == n { n += 1 } else { break } }
        n
    }
    pub fn newfd(&mut self, pid: Pid, of: usize, cloexec: bool, min: i32) -> Result<i32, i32> {
        let fd = self.lowest(pid, min);
        if fd >= self.max_fds { self.of_mut(of).refs += 1; self.unref(of); return Err(EMFILE); }
        self.install(pid, fd, of, cloexec);
        Ok(fd)
    }
    /// Drops one reference to an open file description.
    pub fn unref(&mut self, i: usize) {
        let o = self.of_mut(i);
        o.refs -= 1;
        if o.refs > 0 { return; }
        let o = self.ofs[i].take().unwrap();
        for e in &o.watchers {
            if let Some(Some(OFile { kind: OKind::Epoll(ep), .. })) = self.ofs.get_mut(*e) { ep.items.retain(|k, _| k.1 != i); }
        }
        self.dirty = true;
        match o.kind {
            OKind::PipeR(p) => { self.pipes[p].readers -= 1; self.poke_pipe(p); }
            OKind::PipeW(p) => { self.pipes[p].writers -= 1; self.poke_pipe(p); }
            OKind::Reg(n) => { self.inodes[n].opens -= 1; }
            OKind::Unix(p, s) => { self.unix[p].closed[s] = true; self.poke_unix(p); }
            OKind::Conn(c, s) => self.close_conn(c, s),
            OKind::Listener(l) => {
                self.listeners[l].of = None;
                let b: Vec<usize> = self.listeners[l].backlog.drain(..).collect();
                for c in b { self.reset_conn(c, 1); }
            }
            OKind::Epoll(ep) => {
                for ((_, of), _) in ep.items { if let Some(Some(t)) = self.ofs.get_mut(of) { t.watchers.remove(&i); } }
            }
            _ => {}
        }
    }
    /// Marks an object's watchers as possibly ready.
    pub fn poke(&mut self, of: usize) {
        self.dirty = true;
        let ws: Vec<usize> = match &self.ofs[of] { Some(o) => o.watchers.iter().copied().collect(), None => return };
        for e in ws {
            self.epseq += 1;
            let s = self.epseq;
            if let Some(Some(OFile { kind: OKind::Epoll(ep), .. })) = self.ofs.get_mut(e) {
                for (k, it) in ep.items.iter_mut() { if k.1 == of && it.pending.is_none() { it.pending = Some(s); } }
            }
        }
    }
    fn poke_all(&mut self, f: impl Fn(&OKind) -> bool) {
        self.dirty = true;
        let v: Vec<usize> = self.ofs.iter().enumerate().filter(|(_, o)| o.as_ref().map_or(false, |o| !o.watchers.is_empty() && f(&o.kind))).map(|(i, _)| i).collect();
        for i in v { self.poke(i); }
    }
    pub fn poke_pipe(&mut self, p: usize) { self.poke_all(|k| matches!(k, OKind::PipeR(q) | OKind::PipeW(q) if *q == p)); }
    fn poke_unix(&mut self, p: usize) { self.poke_all(|k| matches!(k, OKind::Unix(q, _) if *q == p)); }
    fn poke_side(&mut self, c: usize, s: usize) {
        self.dirty = true;
        if let Owner::Of(o) = self.conns[c].s[s].owner { self.poke(o); }
    }

    pub fn mask(&self, of: usize) -> u32 {
        let o = match &self.ofs[of] { Some(o) => o, None => return 0 };
        let (i, ou, e, h, rh) = (EPOLLIN as u32, EPOLLOUT as u32, EPOLLERR as u32, EPOLLHUP as u32, EPOLLRDHUP as u32);
        match &o.kind {
            OKind::PipeR(p) => { let p = &self.pipes[*p]; (if p.buf.is_empty() { 0 } else { i }) | (if p.writers == 0 { h } else { 0 }) }
            OKind::PipeW(p) => { let p = &self.pipes[*p]; (if p.buf.len() + 4096 <= p.cap { ou } else { 0 }) | (if p.readers == 0 { e } else { 0 }) }
            OKind::Reg(_) | OKind::Mem(_) | OKind::Null | OKind::Sink(_) => i | ou,
            OKind::Eventfd(v) => (if *v > 0 { i } else { 0 }) | ou,
            OKind::Epoll(_) => 0,
            OKind::Unix(p, s) => { let u = &self.unix[*p]; (if !u.buf[*s].is_empty() { i } else { 0 }) | (if u.closed[1 - s] { i | h | rh } else { 0 }) | (if u.buf[1 - s].len() < 65536 { ou } else { 0 }) }
            OKind::Listener(l) => if self.listeners[*l].backlog.is_empty() { 0 } else { i },
            OKind::Sock(_) => ou | h,
            OKind::PidFd(p) => if self.live(*p) { 0 } else { i },
            OKind::Conn(c, s) => {
                let cn = &self.conns[*c];
                match cn.state {
                    CState::Connecting => 0,
                    CState::Refused(_) => i | ou | e | h,
                    CState::Est => {
                        let d = &cn.s[*s];
                        (if !d.rbuf.is_empty() || d.fin || d.dead || d.shut_rd { i } else { 0 }) | (if d.fin || d.dead { rh } else { 0 })
                            | (if (d.fin && d.sent_fin) || d.dead { h } else { 0 }) | (if d.err.is_some() { e } else { 0 })
                            | (if d.dead || d.unread < d.cap { ou } else { 0 })
                    }
                }
            }
        }
    }

    // -------------------------------------------------------------- costs
    fn cost(&mut self, t: usize, op: Op) -> Time {
        let s = &self.sched;
        let r = &mut self.tasks[t].rng;
        let mut d = 500 + r.below(s.base_us.max(1) * US);
        let a = r.f();
        let b = r.logu(20, s.stall_max_us.max(21)) * US;
        if self.stats.calls < s.calm_after && self.stalled < 3 * SEC {
            let hot = s.hot.iter().any(|h| h == OP_NAMES[op as usize]);
            if a < (if hot { s.hot_p } else { s.stall_p }) {
                d += b;
                self.stalled += b;
                *self.stats.faults.entry("stall".into()).or_insert(0) += 1;
            }
        }
        d
    }

    // -------------------------------------------------------------- real processes
    /// Starts a real supervisor under the simulated kernel.
    pub fn spawn_main(&mut self, bin: &str, shim: &str, args: &[String], env: &[(String, Vec<u8>)], stdin: Option<Vec<u8>>, inherit_extra: &[(i32, bool)], delay: Time) -> Pid {
        use std::os::unix::ffi::OsStringExt;
        use std::os::unix::process::CommandExt;
        let pid = self.alloc_pid();
        let k = self.nmain;
        self.nmain += 1;
        let (ours, theirs) = UnixStream::pair().unwrap();
        let tfd = std::os::fd::AsRawFd::as_raw_fd(&theirs);
        let seed = hash2(self.sched.seed, 77 + k as u64);
        let mut c = std::process::Command::new(bin);
        c.args(args).env_clear();
        for (n, v) in env { c.env(n, std::ffi::OsString::from_vec(v.clone())); }
        c.env("LD_PRELOAD", shim).env("KSIM_INIT", format!("{}:{}:{}:{}:{}", seed, mix(seed), pid, self.now, self.wall0));
        c.env("OPENSSL_ia32cap", "~0x4000000000000000:~0x40000");
        c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null());
        if std::env::var_os("KSIM_STDERR").is_none() { c.stderr(std::process::Stdio::null()); }
        unsafe {
            c.pre_exec(move || {
                if libc::dup2(tfd, 900) < 0 { return Err(std::io::Error::last_os_error()); }
                libc::personality(0x0040000);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::setpgid(0, 0);
                let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                if libc::getenv(c"KSIM_CORE".as_ptr()).is_null() { libc::setrlimit(libc::RLIMIT_CORE, &rl); }
                libc::signal(libc::SIGCHLD, libc::SIG_IGN);
                Ok(())
            });
        }
        let child = c.spawn().expect("spawn node");
        drop(theirs);
        let real = child.id() as i32;
        self.real.push(child);
        self.procs.insert(pid, Proc {
            pid, ppid: 1, sid: pid, pgid: pid, fds: BTreeMap::new(), state: PState::Live, kind: PKind::Real, disp: [Disp::Default; 65], pending: 0, blocked: 0,
            image: Image::default(), comm: b"procstar".to_vec(), start: self.now, end: 0, role: Role::Main(k), sys_real: real, stopped: false, heap: 0,
        });
        self.mains.insert(pid);
        let i = match stdin { Some(d) => self.new_of(OKind::Mem(d), O_RDONLY, 0), None => self.new_of(OKind::Null, O_RDONLY, 0) };
        self.install(pid, 0, i, false);
        for fd in 1..3 {
            self.sinks.push(Sink { data: vec![], by: vec![], err: None, limit: None, short: false });
            let s = self.sinks.len() - 1;
            let o = self.new_of(OKind::Sink(s), O_WRONLY, 0);
            self.install(pid, fd, o, false);
        }
        for &(fd, ce) in inherit_extra {
            let o = self.new_of(OKind::Null, O_RDWR, 0);
            self.install(pid, fd, o, ce);
        }
        let t = self.add_task(pid, ours, false);
        let _ = delay;
        self.await_real(t);
        pid
    }
    pub fn sink_of(&self, pid: Pid, fd: i32) -> usize {
        // Sinks are created in pairs per main process.
        let k = match self.proc(pid).role { Role::Main(k) => k, _ => 0 };
        2 * k + (fd as usize - 1)
    }
    pub fn alloc_pid(&mut self) -> Pid {
        if let Some(p) = self.pid_reuse.pop() { if self.procs.get(&p).map_or(true, |x| x.state == PState::Reaped) { return p; } }
        if self.reuse {
            if let Some(p) = self.procs.values().find(|p| p.state == PState::Reaped && p.pid >= 100).map(|p| p.pid) { self.probe("pid_reused"); *self.stats.faults.entry("pid_reused".into()).or_insert(0) += 1; return p; }
        }
        let p = self.next_pid;
        self.next_pid += 1;
        p
    }
    fn add_task(&mut self, pid: Pid, ch: UnixStream, thread: bool) -> usize {
        ch.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
        let n = self.tasks.len();
        self.tasks.push(Task { pid, tid: n, ch: Some(ch), st: TState::Running, req: None, deadline: None, gen: 0, rng: Rng::derive(hash2(self.sched.seed, n as u64), "task"), thread, started: false, pthread: 0, woken: false, part: 0 });
        n
    }
    /// Waits (really) for a running task's next call, and schedules its service.
    fn await_real(&mut self, t: usize) {
        let mut h = [0u8; 64];
        let r = { let ch = self.tasks[t].ch.as_mut().unwrap(); ch.read_exact(&mut h) };
        let pid = self.tasks[t].pid;
        if let Err(e) = r {
            if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) {
                self.hang = Some(format!("process {} computes without end (no system call for 20 s of real time)", pid));
                self.stop = true;
            } else if self.live(pid) {
                // Died without telling: a real crash (e.g. SIGSEGV).
                self.tasks[t].st = TState::Dead;
                self.note(format!("pid {} crashed", pid));
                self.terminate(pid, SIGSEGV);
            }
            self.tasks[t].st = TState::Dead;
            self.tasks[t].ch = None;
            return;
        }
        let plen = u32le(&h, 0) as usize;
        let op = OPS[u32le(&h, 4) as usize];
        let mut a = [0i64; 6];
        for i in 0..6 { a[i] = i64::from_le_bytes(h[8 + 8 * i..16 + 8 * i].try_into().unwrap()); }
        if let Some(p) = self.procs.get_mut(&pid) { p.heap = u64::from_le_bytes(h[56..64].try_into().unwrap()); }
        let mut data = vec![0u8; plen];
        if plen > 0 { let _ = self.tasks[t].ch.as_mut().unwrap().read_exact(&mut data); }
        if op == Op::EPOLL_WAIT && self.first_wait.is_none() { self.first_wait = Some(self.now); }
        let c = self.cost(t, op);
        let tk = &mut self.tasks[t];
        tk.req = Some(Req { op, a, data });
        tk.st = TState::Ready;
        tk.deadline = None;
        tk.woken = false;
        tk.gen += 1;
        let g = tk.gen;
        self.after(c, Ev::Serve(t, g));
    }
    fn reply(&mut self, t: usize, r: Rep, sigs: u64) {
        let mut b = Vec::with_capacity(48 + r.data.len());
        b.extend((r.data.len() as u32).to_le_bytes());
        b.extend(r.err.to_le_bytes());
        b.extend(r.ret.to_le_bytes());
        b.extend(self.now.to_le_bytes());
        b.extend(self.wall0.to_le_bytes());
        b.extend(sigs.to_le_bytes());
        b.extend((r.flags | if r.passfd.is_some() { 2 } else { 0 }).to_le_bytes());
        b.extend(0u32.to_le_bytes());
        b.extend(&r.data);
        let tk = &mut self.tasks[t];
        tk.st = TState::Running;
        let ch = tk.ch.as_mut().unwrap();
        let _ = ch.write_all(&b);
        if let Some(fd) = r.passfd { send_fd(std::os::fd::AsRawFd::as_raw_fd(ch), fd); unsafe { libc::close(fd); } }
    }

    // -------------------------------------------------------------- main loop
    /// Runs until the queue is empty, `until`, the step limit, or `stop`.
    pub fn run(&mut self, until: Time) {
        while !self.stop {
            let t = match self.queue.peek() { Some(Reverse((t, _, _))) => *t, None => break };
            if t > until { self.now = until; break; }
            if self.step >= self.max_steps { self.step_limit_hit = true; break; }
            let Reverse((t, _, ev)) = self.queue.pop().unwrap();
            self.now = t;
            self.step += 1;
            self.dispatch(ev);
            if self.dirty { self.dirty = false; self.wake(); }
        }
    }
    fn dispatch(&mut self, ev: Ev) {
        match ev {
            Ev::Serve(t, g) => if self.tasks[t].gen == g { self.serve(t) },
            Ev::Timeout(t, g) => if self.tasks[t].gen == g && matches!(self.tasks[t].st, TState::Blocked) { self.serve(t) },
            Ev::Vm(p, g) => self.vm_step(p, g),
            Ev::Net(c, s) => self.net_deliver(c, s),
            Ev::ConnArrive(c) => self.conn_arrive(c),
            Ev::ConnDone(c, e) => self.conn_done(c, e),
            Ev::Actor(a, tok) => self.actor(a, AEv::Timer(tok)),
            Ev::Sig(p, s) => { if self.live(p) { self.note(format!("signal {} to {}", s, p)); self.post_signal(p, s); } }
            Ev::Nop => {}
        }
    }
    pub fn actor(&mut self, a: usize, ev: AEv) {
        let mut x = match self.actors[a].take() { Some(x) => x, None => return };
        x.on(self, a, ev);
        self.actors[a] = Some(x);
        self.dirty = true;
    }
    /// Runs an event on an actor from a fresh scheduler step.
    pub fn actor_soon(&mut self, a: usize, tok: u64, d: Time) { self.after(d, Ev::Actor(a, tok)); }

    fn wake(&mut self) {
        for t in 0..self.tasks.len() {
            if !matches!(self.tasks[t].st, TState::Blocked) || self.tasks[t].woken { continue; }
            if self.ready(t) {
                let c = self.cost(t, Op::NONE);
                let tk = &mut self.tasks[t];
                tk.woken = true;
                tk.gen += 1;
                let g = tk.gen;
                self.after(c, Ev::Serve(t, g));
            }
        }
        self.vm_wake();
    }
    fn deliverable(&self, pid: Pid) -> u64 {
        let p = self.proc(pid);
        let mut m = 0;
        for s in 1..=64 { if p.pending >> (s - 1) & 1 == 1 && p.blocked >> (s - 1) & 1 == 0 && matches!(p.disp[s], Disp::Handler { .. }) { m |= 1 << (s - 1); } }
        m
    }
    /// Would a blocked call now complete?
    fn ready(&self, t: usize) -> bool {
        let tk = &self.tasks[t];
        if !self.live(tk.pid) { return false; }
        let rq = tk.req.as_ref().unwrap();
        if !tk.thread && self.deliverable(tk.pid) != 0 && !matches!(rq.op, Op::FUTEX_WAIT | Op::THREAD_JOIN) { return true; }
        if tk.deadline.map_or(false, |d| d <= self.now) { return true; }
        let p = self.proc(tk.pid);
        let m = |fd: i64| p.fds.get(&(fd as i32)).map_or(!0, |e| self.mask(e.of));
        match rq.op {
            Op::READ | Op::RECV => m(rq.a[0]) & (EPOLLIN | EPOLLHUP | EPOLLERR) as u32 != 0,
            Op::WRITE | Op::SEND => m(rq.a[0]) & (EPOLLOUT | EPOLLHUP | EPOLLERR) as u32 != 0,
            Op::ACCEPT => m(rq.a[0]) & EPOLLIN as u32 != 0,
            Op::CONNECT => m(rq.a[0]) != 0,
            Op::EPOLL_WAIT => match p.fds.get(&(rq.a[0] as i32)) { Some(e) => self.ep_ready(e.of), None => true },
            Op::POLL => rq.data.chunks(8).any(|c| self.poll_one(tk.pid, c) != 0),
            Op::WAIT4 => self.procs.values().any(|c| c.ppid == tk.pid && matches!(c.state, PState::Zombie(_)) && (rq.a[0] <= 0 || rq.a[0] == c.pid as i64)),
            Op::FUTEX_WAIT => false,
            Op::THREAD_JOIN => self.tasks.iter().any(|x| x.thread && x.pid == tk.pid && x.tid as i64 == rq.a[0] && matches!(x.st, TState::Dead)),
            Op::OPEN => {
                let f = self.lookup(&String::from_utf8_lossy(&rq.data)).and_then(|i| self.inodes[i].is_fifo);
                f.map_or(true, |p| if rq.a[0] as i32 & O_ACC == O_RDONLY { self.pipes[p].writers > 0 } else { true })
            }
            _ => false,
        }
    }
    fn ep_ready(&self, e: usize) -> bool {
        match &self.of(e).kind {
            OKind::Epoll(ep) => ep.items.iter().any(|(k, it)| it.pending.is_some() && self.mask(k.1) & (it.events | (EPOLLERR | EPOLLHUP) as u32) != 0),
            _ => true,
        }
    }
    fn poll_one(&self, pid: Pid, c: &[u8]) -> i16 {
        let fd = i32::from_le_bytes(c[0..4].try_into().unwrap());
        let ev = i16::from_le_bytes(c[4..6].try_into().unwrap());
        if fd < 0 { return 0; }
        match self.proc(pid).fds.get(&fd) { Some(e) => (self.mask(e.of) & (ev as u16 as u32 | (EPOLLERR | EPOLLHUP) as u32)) as i16, None => POLLNVAL }
    }

    fn serve(&mut self, t: usize) {
        let pid = self.tasks[t].pid;
        if !self.live(pid) || self.tasks[t].ch.is_none() { return; }
        if self.proc(pid).stopped { self.tasks[t].st = TState::Blocked; self.tasks[t].woken = false; return; }
        let rq = self.tasks[t].req.clone().unwrap();
        let first = matches!(self.tasks[t].st, TState::Ready);
        if first {
            self.stats.calls += 1;
            self.inter_hash = hash2(self.inter_hash, hash2(t as u64, rq.op as u64));
        }
        // Injected failure?
        if first {
            if let Some(e) = self.fault_for(pid, rq.op, &rq) {
                self.fault(&format!("{}:{}", OP_NAMES[rq.op as usize], errname(e)));
                if rq.op == Op::FORK { self.record(Rec::ForkFail { parent: pid }); }
                let sg = self.take_signals(t);
                self.log_call(t, &rq, -1, e);
                self.reply(t, Rep { ret: -1, err: e, ..Default::default() }, sg);
                self.await_real(t);
                return;
            }
        }
        let blocked_before = !first;
        let out = self.call(t, &rq);
        match out {
            Out::Gone => {}
            Out::Done(r) => {
                let sg = self.take_signals(t);
                self.log_call(t, &rq, r.ret, r.err);
                self.reply(t, r, sg);
                if !matches!(self.tasks[t].st, TState::Dead) { self.await_real(t); }
            }
            Out::Block(dl) => {
                if self.tasks[t].deadline.is_none() { self.tasks[t].deadline = dl; }
                let dl = self.tasks[t].deadline;
                let _ = blocked_before;
                if dl.map_or(false, |d| d <= self.now) {
                    // Timed out.
                    let (ret, err) = match rq.op { Op::EPOLL_WAIT | Op::POLL | Op::NANOSLEEP => (0, 0), Op::FUTEX_WAIT => (-1, ETIMEDOUT), _ => (-1, ETIMEDOUT) };
                    let sg = self.take_signals(t);
                    self.log_call(t, &rq, ret, err);
                    self.reply(t, Rep { ret, err, data: if rq.op == Op::POLL { rq.data.clone() } else { vec![] }, ..Default::default() }, sg);
                    self.await_real(t);
                    return;
                }
                if !self.tasks[t].thread && !matches!(rq.op, Op::FUTEX_WAIT | Op::THREAD_JOIN) && self.deliverable(pid) != 0 {
                    let p = self.proc(pid);
                    let m = self.deliverable(pid);
                    let restart = (1..=64).filter(|s| m >> (s - 1) & 1 == 1).all(|s| matches!(p.disp[s], Disp::Handler { restart: true }));
                    let sg = self.take_signals(t);
                    let part = std::mem::take(&mut self.tasks[t].part);
                    let r = match rq.op {
                        _ if part > 0 => Rep { ret: part as i64, ..Default::default() },
                        Op::EPOLL_WAIT | Op::POLL | Op::NANOSLEEP => Rep { ret: -1, err: EINTR, ..Default::default() },
                        _ if restart => Rep { flags: 1, ..Default::default() },
                        _ => Rep { ret: -1, err: EINTR, ..Default::default() },
                    };
                    self.log_call(t, &rq, r.ret, r.err);
                    self.reply(t, r, sg);
                    self.await_real(t);
                    return;
                }
                let tk = &mut self.tasks[t];
                tk.st = TState::Blocked;
                tk.woken = false;
                tk.gen += 1;
                let g = tk.gen;
                if let Some(d) = dl { self.at(d, Ev::Timeout(t, g)); }
            }
        }
    }
    fn take_signals(&mut self, t: usize) -> u64 {
        if self.tasks[t].thread { return 0; }
        let pid = self.tasks[t].pid;
        if !self.live(pid) { return 0; }
        let m = self.deliverable(pid);
        self.pm(pid).pending &= !m;
        m
    }
    fn log_call(&mut self, t: usize, rq: &Req, ret: i64, err: i32) {
        let d = hash_bytes(0, &rq.data);
        let h = hash2(hash2(self.trace_hash, self.now), hash2(t as u64 * 131 + rq.op as u64, ret as u64 ^ (err as u64) << 40));
        let mut h2 = h;
        for a in &rq.a[..5] { if !matches!(rq.op, Op::FUTEX_WAIT | Op::FUTEX_WAKE | Op::THREAD_EXIT | Op::THREAD_JOIN) { h2 = hash2(h2, *a as u64); } }
        self.trace_hash = hash2(h2, d);
        if self.trace.is_some() {
            let pid = self.tasks[t].pid;
            let s = format!("{}/{} {}({:?}{}) = {}{}", pid, t, OP_NAMES[rq.op as usize], &rq.a[..4], if rq.data.is_empty() { String::new() } else { format!(" {:?}", show(&rq.data, 60)) }, ret, if err != 0 { format!(" {}", errname(err)) } else { String::new() });
            let n = self.now - 1000 * SEC;
            let st = self.step;
            self.trace.as_mut().unwrap().push(format!("{:>14} #{} {}", n, st, s));
        }
    }
    pub fn role_name(&self, pid: Pid) -> String {
        match self.proc(pid).role { Role::Main(_) => "main".into(), Role::Child(k) => format!("child{}", k), Role::Script => "script".into(), Role::Foreign => "foreign".into() }
    }
    fn fault_for(&mut self, pid: Pid, op: Op, rq: &Req) -> Option<i32> {
        if self.faults.is_empty() { return None; }
        let who = self.role_name(pid);
        let mut name = OP_NAMES[op as usize].to_string();
        // Distinguish what matters to the caller.
        if op == Op::OPEN { let p = String::from_utf8_lossy(&rq.data); if p.starts_with("/proc/") { name = "OPENPROC".into(); } }
        if op == Op::WRITE || op == Op::SEND { if let Some(e) = self.proc(pid).fds.get(&(rq.a[0] as i32)) { name = match self.of(e.of).kind { OKind::Sink(_) => if rq.a[0] == 2 { "WRITEERR".into() } else { "WRITESINK".into() }, OKind::Reg(_) => "WRITEFILE".into(), OKind::PipeW(_) => "WRITEPIPE".into(), _ => "WRITEOTHER".into() }; } }
        if op == Op::READ { if let Some(e) = self.proc(pid).fds.get(&(rq.a[0] as i32)) { name = match self.of(e.of).kind { OKind::PipeR(_) => "READPIPE".into(), OKind::Mem(_) => "READPROC".into(), OKind::Reg(_) => "READFILE".into(), _ => "READOTHER".into() }; } }
        if op == Op::CLOSE || (op == Op::FCNTL && rq.a[1] as i32 != F_DUPFD && rq.a[1] as i32 != F_DUPFD_CLOEXEC) { return None; }
        if !self.faults.iter().any(|f| f.op == name) { return None; }
        let mut hit = None;
        for key in [who.clone(), "any".to_string()] {
            let c = self.fault_ct.entry((key.clone(), name.clone())).or_insert(0);
            let n = *c;
            *c += 1;
            for f in &self.faults { if f.who == key && f.op == name && n >= f.nth && n - f.nth < f.count { hit = Some(f.errno); } }
        }
        hit
    }

    // -------------------------------------------------------------- system calls
    fn call(&mut self, t: usize, rq: &Req) -> Out {
        let pid = self.tasks[t].pid;
        let a = rq.a;
        let path = || String::from_utf8_lossy(&rq.data).to_string();
        if matches!(self.proc(pid).role, Role::Child(_)) && matches!(rq.op, Op::EPOLL_WAIT | Op::ACCEPT | Op::FORK | Op::LISTEN | Op::CONNECT | Op::WAIT4) {
            self.record(Rec::ChildRuns { pid, op: OP_NAMES[rq.op as usize] });
            if rq.op == Op::EPOLL_WAIT || rq.op == Op::FORK { self.terminate(pid, SIGKILL); return Out::Gone; }
        }
        macro_rules! fd { ($n:expr) => { match self.proc(pid).fds.get(&($n as i32)) { Some(e) => e.of, None => return er(EBADF) } } }
        match rq.op {
            Op::READ => { let o = fd!(a[0]); self.sys_read(pid, a[0] as i32, o, a[1] as usize, true, t) }
            Op::RECV => { let o = fd!(a[0]); let peek = a[2] as i32 & MSG_PEEK != 0; if peek { return self.sys_peek(o, a[1] as usize); } self.sys_read(pid, a[0] as i32, o, a[1] as usize, a[2] as i32 & MSG_DONTWAIT == 0, t) }
            Op::WRITE => { let o = fd!(a[0]); self.sys_write(pid, a[0] as i32, o, &rq.data, true, Some(t)) }
            Op::SEND => { let o = fd!(a[0]); self.sys_write(pid, a[0] as i32, o, &rq.data, false, Some(t)) }
            Op::PREAD => {
                let o = fd!(a[0]);
                match &self.of(o).kind {
                    OKind::Reg(n) => { let d = &self.inodes[*n].data; let s = (a[2].max(0) as usize).min(d.len()); let mut e = (s + a[1] as usize).min(d.len()); let r = self.short(t, e - s); e = s + r; let d = self.inodes[self.reg(o)].data[s..e].to_vec(); okd(d.len() as i64, d) }
                    OKind::Mem(d) => { let s = (a[2].max(0) as usize).min(d.len()); let e = (s + a[1] as usize).min(d.len()); okd((e - s) as i64, d[s..e].to_vec()) }
                    OKind::Null => ok(0),
                    _ => er(ESPIPE),
                }
            }
            Op::PWRITE => { let o = fd!(a[0]); match self.of(o).kind { OKind::Reg(n) => { self.file_write(n, a[1] as usize, &rq.data) } OKind::Null => ok(rq.data.len() as i64), _ => er(ESPIPE) } }
            Op::CLOSE => { match self.pm(pid).fds.remove(&(a[0] as i32)) { Some(e) => { self.unref(e.of); ok(0) } None => er(EBADF) } }
            Op::CLOSE_RANGE => {
                let v: Vec<i32> = self.proc(pid).fds.range(a[0] as i32..=a[1] as i32).map(|x| *x.0).collect();
                for f in v { if a[2] & 4 != 0 { self.pm(pid).fds.get_mut(&f).unwrap().cloexec = true; } else { let e = self.pm(pid).fds.remove(&f).unwrap(); self.unref(e.of); } }
                ok(0)
            }
            Op::DUP => { let o = fd!(a[0]); match self.newfd(pid, o, false, 0) { Ok(f) => ok(f as i64), Err(e) => er(e) } }
            Op::DUP3 => {
                let o = fd!(a[0]);
                if a[1] < 0 || a[1] as i32 >= self.max_fds { return er(EBADF); }
                if a[0] == a[1] { return if a[3] == 1 { ok(a[1]) } else { er(EINVAL) }; }
                self.install(pid, a[1] as i32, o, a[2] as i32 & O_CLOEXEC != 0);
                ok(a[1])
            }
            Op::FCNTL => {
                let o = fd!(a[0]);
                match a[1] as i32 {
                    F_DUPFD => match self.newfd(pid, o, false, a[2] as i32) { Ok(f) => ok(f as i64), Err(e) => er(e) },
                    F_DUPFD_CLOEXEC => match self.newfd(pid, o, true, a[2] as i32) { Ok(f) => ok(f as i64), Err(e) => er(e) },
                    F_GETFD => ok(self.proc(pid).fds[&(a[0] as i32)].cloexec as i64),
                    F_SETFD => { self.pm(pid).fds.get_mut(&(a[0] as i32)).unwrap().cloexec = a[2] & 1 != 0; ok(0) }
                    F_GETFL => ok(self.of(o).flags as i64),
                    F_SETFL => { let f = self.of(o).flags; self.of_mut(o).flags = (f & !(O_NONBLOCK | O_APPEND)) | (a[2] as i32 & (O_NONBLOCK | O_APPEND)); ok(0) }
                    F_SETPIPE_SZ | F_GETPIPE_SZ => ok(self.sched.pipe_cap as i64),
                    _ => er(EINVAL),
                }
            }
            Op::IOCTL => {
                let o = fd!(a[0]);
                match a[1] as u64 {
                    0x5421 => { let f = self.of(o).flags; self.of_mut(o).flags = if a[2] != 0 { f | O_NONBLOCK } else { f & !O_NONBLOCK }; ok(0) }
                    0x541B => { let n = match &self.of(o).kind { OKind::PipeR(p) => self.pipes[*p].buf.len(), OKind::Conn(c, s) => self.conns[*c].s[*s].rbuf.len(), _ => return er(ENOTTY) }; okd(0, (n as i32).to_le_bytes().to_vec()) }
                    _ => er(ENOTTY),
                }
            }
            Op::OPEN => self.sys_open(pid, &path(), a[0] as i32, a[1] as u32, t),
            Op::PIPE2 => {
                if self.proc(pid).fds.len() as i32 + 2 > self.max_fds { return er(EMFILE); }
                let p = self.new_pipe(pid);
                let fl = a[0] as i32;
                let r = self.new_of(OKind::PipeR(p), O_RDONLY | (fl & O_NONBLOCK), pid);
                let w = self.new_of(OKind::PipeW(p), O_WRONLY | (fl & O_NONBLOCK), pid);
                let x = self.newfd(pid, r, fl & O_CLOEXEC != 0, 0).unwrap();
                let y = self.newfd(pid, w, fl & O_CLOEXEC != 0, 0).unwrap();
                let mut d = x.to_le_bytes().to_vec();
                d.extend(y.to_le_bytes());
                okd(0, d)
            }
            Op::SOCKETPAIR => {
                self.unix.push(UnixPair { buf: Default::default(), closed: [false; 2] });
                let u = self.unix.len() - 1;
                let ty = a[1] as i32;
                let mut d = vec![];
                for s in 0..2 {
                    let o = self.new_of(OKind::Unix(u, s), O_RDWR | if ty & SOCK_NONBLOCK != 0 { O_NONBLOCK } else { 0 }, pid);
                    match self.newfd(pid, o, ty & SOCK_CLOEXEC != 0, 0) { Ok(f) => d.extend(f.to_le_bytes()), Err(e) => return er(e) }
                }
                okd(0, d)
            }
            Op::EVENTFD => { let o = self.new_of(OKind::Eventfd(a[0] as u64), O_RDWR | (a[1] as i32 & O_NONBLOCK), pid); self.fdret(pid, o, a[1] as i32 & O_CLOEXEC != 0) }
            Op::EPOLL_CREATE => { let o = self.new_of(OKind::Epoll(Epoll::default()), O_RDWR, pid); self.fdret(pid, o, a[0] as i32 & O_CLOEXEC != 0) }
            Op::EPOLL_CTL => {
                let e = fd!(a[0]);
                let o = fd!(a[2]);
                if matches!(self.of(o).kind, OKind::Reg(_) | OKind::Mem(_) | OKind::Null) { return er(EPERM); }
                self.epseq += 1;
                let s = self.epseq;
                let key = (a[2] as i32, o);
                let ep = match &mut self.of_mut(e).kind { OKind::Epoll(ep) => ep, _ => return er(EINVAL) };
                let r = match a[1] as i32 {
                    EPOLL_CTL_ADD => { if ep.items.contains_key(&key) { return er(EEXIST); } ep.items.insert(key, EpItem { events: a[3] as u32, data: a[4] as u64, pending: Some(s) }); ok(0) }
                    EPOLL_CTL_MOD => match ep.items.get_mut(&key) { Some(i) => { i.events = a[3] as u32; i.data = a[4] as u64; i.pending = Some(s); ok(0) } None => return er(ENOENT) },
                    EPOLL_CTL_DEL => { if ep.items.remove(&key).is_none() { return er(ENOENT); } ok(0) }
                    _ => return er(EINVAL),
                };
                if a[1] as i32 == EPOLL_CTL_ADD { self.of_mut(o).watchers.insert(e); }
                if a[1] as i32 == EPOLL_CTL_DEL { let still = match &self.of(e).kind { OKind::Epoll(ep) => ep.items.keys().any(|k| k.1 == o), _ => false }; if !still { self.of_mut(o).watchers.remove(&e); } }
                self.dirty = true;
                r
            }
            Op::EPOLL_WAIT => {
                let e = fd!(a[0]);
                if self.base_fds.is_empty() { self.base_fds = crate::run::fd_kinds(self, pid); }
                let mut cand: Vec<(u64, (i32, usize), u32, u64)> = match &self.of(e).kind {
                    OKind::Epoll(ep) => ep.items.iter().filter_map(|(k, it)| it.pending.map(|s| (s, *k, it.events, it.data))).collect(),
                    _ => return er(EINVAL),
                };
                cand.sort();
                let mut d = vec![];
                let mut n = 0;
                for (_, k, ev, data) in cand {
                    if n >= a[1] { break; }
                    let m = self.mask(k.1) & (ev | (EPOLLERR | EPOLLHUP) as u32);
                    let et = ev & EPOLLET as u32 != 0;
                    if m != 0 {
                        d.extend(m.to_le_bytes());
                        d.extend(data.to_le_bytes());
                        n += 1;
                    }
                    if m == 0 || et { if let OKind::Epoll(ep) = &mut self.of_mut(e).kind { ep.items.get_mut(&k).unwrap().pending = None; } }
                }
                if n > 0 { return okd(n, d); }
                if a[2] == 0 { return ok(0); }
                Out::Block(if a[2] < 0 { None } else { Some(self.now + a[2] as u64) })
            }
            Op::POLL => {
                let mut d = rq.data.clone();
                let mut n = 0;
                for c in d.chunks_mut(8) { let r = self.poll_one(pid, c); c[6..8].copy_from_slice(&r.to_le_bytes()); if r != 0 { n += 1; } }
                if n > 0 || a[0] == 0 { return okd(n, d); }
                Out::Block(if a[0] < 0 { None } else { Some(self.now + a[0] as u64) })
            }
            Op::SOCKET => {
                if a[0] as i32 != AF_INET { return er(EAFNOSUPPORT); }
                let ty = a[1] as i32;
                if ty & 0xf != SOCK_STREAM { return er(EPROTONOSUPPORT); }
                let o = self.new_of(OKind::Sock(None), O_RDWR | if ty & SOCK_NONBLOCK != 0 { O_NONBLOCK } else { 0 }, pid);
                self.fdret(pid, o, ty & SOCK_CLOEXEC != 0)
            }
            Op::BIND => { let o = fd!(a[0]); let (ip, port) = match sa(&rq.data) { Some(x) => x, None => return er(EAFNOSUPPORT) }; if self.listeners.iter().any(|l| l.port == port && (l.of.is_some() || l.actor.is_some()) && l.ip == ip) { return er(EADDRINUSE); } self.of_mut(o).kind = OKind::Sock(Some((ip, port))); ok(0) }
            Op::LISTEN => {
                let o = fd!(a[0]);
                let (ip, port) = match self.of(o).kind { OKind::Sock(Some(x)) => x, _ => return er(EINVAL) };
                self.listeners.push(Listener { ip, port, of: Some(o), actor: None, backlog: VecDeque::new(), cap: a[1].clamp(1, 4096) as usize });
                self.of_mut(o).kind = OKind::Listener(self.listeners.len() - 1);
                if self.listened.is_none() { self.listened = Some(self.now); }
                ok(0)
            }
            Op::ACCEPT => {
                let o = fd!(a[0]);
                let l = match self.of(o).kind { OKind::Listener(l) => l, _ => return er(EINVAL) };
                if self.listeners[l].backlog.is_empty() { return if self.of(o).flags & O_NONBLOCK != 0 { er(EAGAIN) } else { Out::Block(None) }; }
                if let Some(e) = self.accept_errs.pop_front() {
                    if e != 0 {
                        self.fault(&format!("ACCEPT:{}", errname(e)));
                        if e == ECONNABORTED { let c = self.listeners[l].backlog.pop_front().unwrap(); self.aborted.push(c); self.reset_conn(c, 1); }
                        // A failed accept leaves other connections queued; the edge is not repeated.
                        return er(e);
                    }
                }
                if self.lowest(pid, 0) >= self.max_fds { return er(EMFILE); }
                let c = self.listeners[l].backlog.pop_front().unwrap();
                let n = self.new_of(OKind::Conn(c, 1), O_RDWR | if a[1] as i32 & SOCK_NONBLOCK != 0 { O_NONBLOCK } else { 0 }, pid);
                self.conns[c].s[1].owner = Owner::Of(n);
                let f = self.newfd(pid, n, a[1] as i32 & SOCK_CLOEXEC != 0, 0).unwrap();
                okd(f as i64, mksa(0x7f000001, self.conns[c].src_port))
            }
            Op::CONNECT => {
                let o = fd!(a[0]);
                match self.of(o).kind {
                    OKind::Sock(_) => {}
                    OKind::Conn(c, _) => return match self.conns[c].state { CState::Connecting => if self.of(o).flags & O_NONBLOCK != 0 { er(EALREADY) } else { Out::Block(None) }, CState::Est => er(EISCONN), CState::Refused(e) => er(e) },
                    _ => return er(EINVAL),
                }
                let dst = match sa(&rq.data) { Some(x) => x, None => return er(EAFNOSUPPORT) };
                let c = self.new_conn(dst, Owner::Of(o));
                self.of_mut(o).kind = OKind::Conn(c, 0);
                if self.of(o).flags & O_NONBLOCK != 0 { er(EINPROGRESS) } else { Out::Block(None) }
            }
            Op::SHUTDOWN => {
                let o = fd!(a[0]);
                match self.of(o).kind {
                    OKind::Conn(c, s) => {
                        if self.conns[c].state != CState::Est || self.conns[c].s[s].dead { return er(ENOTCONN); }
                        if a[1] as i32 != SHUT_WR { self.conns[c].s[s].shut_rd = true; }
                        if a[1] as i32 != SHUT_RD && !self.conns[c].s[s].sent_fin { self.conns[c].s[s].sent_fin = true; self.queue_seg(c, s, Seg::Fin); }
                        self.poke_side(c, s);
                        ok(0)
                    }
                    OKind::Unix(..) => ok(0),
                    _ => er(ENOTCONN),
                }
            }
            Op::GETSOCKOPT => {
                let o = fd!(a[0]);
                let v = if a[1] as i32 == SOL_SOCKET && a[2] as i32 == SO_ERROR {
                    match self.of(o).kind {
                        OKind::Conn(c, s) => { if let CState::Refused(e) = self.conns[c].state { if self.conns[c].reported { 0 } else { self.conns[c].reported = true; e } } else { self.conns[c].s[s].err.take().unwrap_or(0) } }
                        _ => 0,
                    }
                } else if a[2] as i32 == SO_TYPE { SOCK_STREAM } else { 0 };
                okd(0, v.to_le_bytes().to_vec())
            }
            Op::SETSOCKOPT => { fd!(a[0]); ok(0) }
            Op::GETSOCKNAME | Op::GETPEERNAME => {
                let o = fd!(a[0]);
                match &self.of(o).kind {
                    OKind::Sock(b) => { let (i, p) = b.unwrap_or((0, 0)); if rq.op == Op::GETPEERNAME { er(ENOTCONN) } else { okd(0, mksa(i, p)) } }
                    OKind::Listener(l) => { let l = &self.listeners[*l]; if rq.op == Op::GETPEERNAME { er(ENOTCONN) } else { okd(0, mksa(l.ip, l.port)) } }
                    OKind::Conn(c, s) => {
                        let c = &self.conns[*c];
                        if rq.op == Op::GETPEERNAME && (c.state != CState::Est || c.s[*s].dead) { return er(ENOTCONN); }
                        let local = (rq.op == Op::GETSOCKNAME) == (*s == 0);
                        if local { okd(0, mksa(0x7f000001, c.src_port)) } else { okd(0, mksa(c.dst.0, c.dst.1)) }
                    }
                    _ => er(ENOTSOCK),
                }
            }
            Op::FORK => self.sys_fork(t),
            Op::EXECVE => self.sys_execve(t, rq),
            Op::EXIT => { self.log_call(t, rq, 0, 0); self.terminate(pid, (a[0] as i32 & 0xff) << 8); self.tasks[t].ch = None; Out::Gone }
            Op::ABORT => { self.log_call(t, rq, 0, 0); self.terminate(pid, SIGABRT); self.tasks[t].ch = None; Out::Gone }
            Op::WAIT4 | Op::WAITID => {
                let want = if rq.op == Op::WAIT4 { a[0] } else if a[0] == 1 { a[1] } else { -1 };
                let opts = if rq.op == Op::WAIT4 { a[1] } else { a[2] } as i32;
                let kids: Vec<Pid> = self.procs.values().filter(|c| c.ppid == pid && c.state != PState::Reaped && (want <= 0 || want == c.pid as i64)).map(|c| c.pid).collect();
                if kids.is_empty() { return er(ECHILD); }
                let z = kids.iter().find_map(|k| if let PState::Zombie(s) = self.proc(*k).state { Some((*k, s)) } else { None });
                match z {
                    Some((k, st)) => {
                        if opts & WNOWAIT == 0 { self.reap(k, pid, st); }
                        if rq.op == Op::WAIT4 {
                            let mut d = st.to_le_bytes().to_vec();
                            d.extend(0i32.to_le_bytes());
                            let u = rusage_of(k);
                            for x in u { d.extend(x.to_le_bytes()); }
                            okd(k as i64, d)
                        } else {
                            let (code, s) = if st & 0x7f == 0 { (CLD_EXITED, st >> 8) } else { (CLD_KILLED, st & 0x7f) };
                            let mut d = vec![];
                            for x in [k, code, s, 0] { d.extend(x.to_le_bytes()); }
                            okd(0, d)
                        }
                    }
                    None => if opts & WNOHANG != 0 { if rq.op == Op::WAIT4 { ok(0) } else { okd(0, vec![0; 152]) } } else { Out::Block(None) },
                }
            }
            Op::KILL => self.sys_kill(pid, a[0] as i32, a[1] as i32),
            Op::SIGACTION => { let s = a[0] as usize; if a[1] > 1 && self.mains.contains(&pid) { let n = self.now; self.first_handler.entry(s as i32).or_insert(n); } if s == SIGKILL as usize || s == SIGSTOP as usize { return er(EINVAL); } self.pm(pid).disp[s] = match a[1] { 0 => Disp::Default, 1 => Disp::Ignore, _ => Disp::Handler { restart: a[2] as i32 & SA_RESTART != 0 } }; if a[1] == 1 { self.pm(pid).pending &= !(1u64 << (s - 1)); } ok(0) }
            Op::SIGMASK => {
                let p = self.pm(pid);
                let old = p.blocked;
                match a[0] as i32 { SIG_BLOCK => p.blocked |= a[1] as u64, SIG_UNBLOCK => p.blocked &= !(a[1] as u64), SIG_SETMASK => p.blocked = a[1] as u64, _ => {} }
                self.dirty = true;
                okd(0, old.to_le_bytes().to_vec())
            }
            Op::SETSID => { let p = self.pm(pid); if p.pgid == pid { return er(EPERM); } p.sid = pid; p.pgid = pid; ok(pid as i64) }
            Op::SETPGID => { let p = self.pm(pid); p.pgid = if a[1] == 0 { pid } else { a[1] as i32 }; ok(0) }
            Op::GETPPID => ok(self.proc(pid).ppid as i64),
            Op::MKSTEMP => {
                self.tmp_ct += 1;
                let tpl = path();
                let n = tpl.trim_end_matches('X').len();
                let x = format!("{:0w$}", self.tmp_ct, w = tpl.len() - n);
                let p = format!("{}{}", &tpl[..n], x);
                let i = self.mkfile(&p, b"", 0o600);
                self.inodes[i].temp = true;
                self.inodes[i].opens += 1;
                let o = self.new_of(OKind::Reg(i), O_RDWR | (a[0] as i32 & O_APPEND), pid);
                match self.newfd(pid, o, a[0] as i32 & O_CLOEXEC != 0, 0) { Ok(f) => okd(f as i64, p.into_bytes()), Err(e) => { self.fs.remove(&p); er(e) } }
            }
            Op::UNLINK => { match self.fs.remove(&path()) { Some(i) => { self.inodes[i].nlink -= 1; ok(0) } None => er(ENOENT) } }
            Op::RENAME => { let s = path(); let (x, y) = s.split_once('\0').unwrap(); match self.fs.remove(x) { Some(i) => { if let Some(old) = self.fs.insert(y.to_string(), i) { self.inodes[old].nlink -= 1; } ok(0) } None => er(ENOENT) } }
            Op::STAT | Op::LSTAT => { let p = path(); match self.lookup(&p) { Some(i) => { let n = &self.inodes[i]; okd(0, vstat(n, i)) } None => if p.starts_with("/proc/") && self.procfile(&p).is_some() { okd(0, vstat(&Inode { mode: 0o100444, nlink: 1, ..Default::default() }, 0)) } else { er(ENOENT) } } }
            Op::ACCESS => if self.lookup(&path()).is_some() || self.exes.contains_key(&path()) { ok(0) } else { er(ENOENT) },
            Op::FSTAT => {
                let o = fd!(a[0]);
                let n = match &self.of(o).kind { OKind::Reg(i) => return okd(0, vstat(&self.inodes[*i], *i)), OKind::Mem(_) => Inode { mode: 0o100444, nlink: 1, ..Default::default() }, OKind::PipeR(_) | OKind::PipeW(_) => Inode { mode: 0o010600, ..Default::default() }, OKind::Null | OKind::Sink(_) => Inode { mode: 0o020666, ..Default::default() }, _ => Inode { mode: 0o140777, ..Default::default() } };
                okd(0, vstat(&n, 0))
            }
            Op::READLINK => er(ENOENT),
            Op::FTRUNCATE => { let o = fd!(a[0]); match self.of(o).kind { OKind::Reg(i) => { self.inodes[i].data.resize(a[1] as usize, 0); ok(0) } _ => er(EINVAL) } }
            Op::LSEEK => {
                let o = fd!(a[0]);
                let len = match &self.of(o).kind { OKind::Reg(i) => self.inodes[*i].data.len(), OKind::Mem(d) => d.len(), OKind::Null => 0, _ => return er(ESPIPE) } as i64;
                let p = match a[2] as i32 { SEEK_SET => a[1], SEEK_CUR => self.of(o).pos as i64 + a[1], SEEK_END => len + a[1], _ => return er(EINVAL) };
                if p < 0 { return er(EINVAL); }
                self.of_mut(o).pos = p as u64;
                ok(p)
            }
            Op::FSYNC => { let o = fd!(a[0]); if let OKind::Reg(i) = self.of(o).kind { if let Some(e) = self.inodes[i].write_err { return er(e); } } ok(0) }
            Op::NANOSLEEP => { if a[0] == 0 { return ok(0); } if self.tasks[t].deadline.map_or(false, |d| d <= self.now) { return ok(0); } Out::Block(Some(self.now + a[0] as u64)) }
            Op::RESOLVE if self.syn_port != 0 && self.syn_plan.front().copied().unwrap_or(self.syn_then) == 3 => { self.syn_plan.pop_front(); self.fault("net:name_not_found"); let n = self.now; self.syns.push((n, usize::MAX, 3)); er(ENOENT) }
            Op::RESOLVE => match self.hosts.get(&path()) { Some(ip) => okd(0, ip.to_be_bytes().to_vec()), None => er(ENOENT) },
            Op::THREAD_CREATE => {
                let (ours, theirs) = UnixStream::pair().unwrap();
                let n = self.add_task(pid, ours, true);
                let fd = std::os::fd::IntoRawFd::into_raw_fd(theirs);
                self.log_call(t, rq, n as i64, 0);
                self.reply(t, Rep { ret: n as i64, passfd: Some(fd), ..Default::default() }, 0);
                // The new thread announces itself, then waits to be scheduled.
                self.await_real(n);
                self.await_real(t);
                Out::Gone
            }
            Op::THREAD_START => { self.tasks[t].started = true; ok(0) }
            Op::THREAD_EXIT => { self.tasks[t].pthread = a[0]; self.log_call(t, rq, 0, 0); self.reply(t, Rep::default(), 0); self.tasks[t].st = TState::Dead; let mut b = [0u8; 1]; let _ = self.tasks[t].ch.as_mut().unwrap().read(&mut b); self.tasks[t].ch = None; self.dirty = true; Out::Gone }
            Op::THREAD_JOIN => if self.tasks.iter().any(|x| x.thread && x.pid == pid && x.tid as i64 == a[0] && matches!(x.st, TState::Dead)) { ok(0) } else { Out::Block(None) },
            Op::FUTEX_WAIT => { if self.tasks[t].woken { return ok(0); } Out::Block(if a[1] < 0 { None } else { Some(self.now + a[1] as u64) }) }
            Op::FUTEX_WAKE => {
                let mut n = 0;
                for i in 0..self.tasks.len() {
                    if n >= a[1] { break; }
                    let x = &self.tasks[i];
                    if x.pid == pid && matches!(x.st, TState::Blocked | TState::Ready) && !x.woken && x.req.as_ref().map_or(false, |r| r.op == Op::FUTEX_WAIT && r.a[0] == a[0]) {
                        n += 1;
                        // It began to wait when it looked at the value, before asking.
                        if matches!(x.st, TState::Ready) { self.tasks[i].woken = true; continue; }
                        let c = self.cost(i, Op::NONE);
                        let x = &mut self.tasks[i];
                        x.woken = true;
                        x.gen += 1;
                        let g = x.gen;
                        self.after(c, Ev::Serve(i, g));
                    }
                }
                ok(n)
            }
            Op::MKDIR => { let p = path(); if self.fs.contains_key(&p) { return er(EEXIST); } let i = self.mkfile(&p, b"", 0o755); self.inodes[i].is_dir = true; ok(0) }
            Op::CHDIR => ok(0),
            Op::PIDFD_OPEN => { let p = a[0] as i32; if !self.procs.get(&p).map_or(false, |x| x.state != PState::Reaped) { return er(ESRCH); } let o = self.new_of(OKind::PidFd(p), O_RDWR | (a[1] as i32 & O_NONBLOCK), pid); self.fdret(pid, o, true) }
            Op::UNKNOWN => { self.record(Rec::Unknown { op: format!("syscall {}", a[0]) }); er(ENOSYS) }
            Op::NONE => er(ENOSYS),
        }
    }
    fn reg(&self, o: usize) -> usize { match self.of(o).kind { OKind::Reg(i) => i, _ => 0 } }
    fn fdret(&mut self, pid: Pid, o: usize, ce: bool) -> Out { match self.newfd(pid, o, ce, 0) { Ok(f) => ok(f as i64), Err(e) => er(e) } }
    pub fn lookup(&self, p: &str) -> Option<usize> { self.fs.get(p).copied() }
    fn short(&mut self, t: usize, n: usize) -> usize {
        if n > 1 && self.sched.short_p > 0.0 && self.tasks[t].rng.p(self.sched.short_p) {
            *self.stats.faults.entry("short_io".into()).or_insert(0) += 1;
            1 + self.tasks[t].rng.below(n as u64 - 1) as usize
        } else { n }
    }
    fn sys_peek(&mut self, o: usize, n: usize) -> Out {
        match &self.of(o).kind {
            OKind::Conn(c, s) => { let d = &self.conns[*c].s[*s]; if d.rbuf.is_empty() { return if d.fin { ok(0) } else { er(EAGAIN) }; } let v: Vec<u8> = d.rbuf.iter().take(n).copied().collect(); okd(v.len() as i64, v) }
            _ => er(ENOTSOCK),
        }
    }
    pub fn sys_read(&mut self, pid: Pid, _fd: i32, o: usize, n: usize, may_block: bool, t: usize) -> Out {
        let nb = self.of(o).flags & O_NONBLOCK != 0 || !may_block;
        let acc = self.of(o).flags & O_ACC;
        if acc == O_WRONLY { return er(EBADF); }
        let wait = |x: bool| if x { er(EAGAIN) } else { Out::Block(None) };
        match &self.of(o).kind {
            OKind::PipeR(p) => {
                let p = *p;
                if self.pipes[p].buf.is_empty() { return if self.pipes[p].writers == 0 { ok(0) } else { wait(nb) }; }
                if n == 0 { return ok(0); }
                // Linux fills the buffer from what is there (and tokio relies on it).
                let k = n.min(self.pipes[p].buf.len());
                let d: Vec<u8> = self.pipes[p].buf.drain(..k).collect();
                self.poke_pipe(p);
                okd(k as i64, d)
            }
            OKind::Reg(i) => {
                let i = *i;
                if self.inodes[i].is_dir { return er(EISDIR); }
                let pos = self.of(o).pos as usize;
                let len = self.inodes[i].data.len();
                let s = pos.min(len);
                let k = n.min(len - s);
                let k = if t != usize::MAX { self.short(t, k) } else { k };
                let d = self.inodes[i].data[s..s + k].to_vec();
                self.of_mut(o).pos += k as u64;
                okd(k as i64, d)
            }
            OKind::Mem(m) => { let s = (self.of(o).pos as usize).min(m.len()); let e = (s + n).min(m.len()); let d = m[s..e].to_vec(); self.of_mut(o).pos = e as u64; okd(d.len() as i64, d) }
            OKind::Null => ok(0),
            OKind::Sink(_) => ok(0),
            OKind::Eventfd(v) => { if *v == 0 { return wait(nb); } let d = v.to_le_bytes().to_vec(); self.of_mut(o).kind = OKind::Eventfd(0); self.poke(o); okd(8, d) }
            OKind::Unix(u, s) => {
                let (u, s) = (*u, *s);
                if self.unix[u].buf[s].is_empty() { return if self.unix[u].closed[1 - s] { ok(0) } else { wait(nb) }; }
                let k = n.min(self.unix[u].buf[s].len());
                let d: Vec<u8> = self.unix[u].buf[s].drain(..k).collect();
                self.poke_unix(u);
                okd(k as i64, d)
            }
            OKind::Conn(c, s) => {
                let (c, s) = (*c, *s);
                match self.conns[c].state { CState::Connecting => return wait(nb), CState::Refused(_) => return er(ENOTCONN), _ => {} }
                if self.conns[c].s[s].rbuf.is_empty() {
                    let d = &mut self.conns[c].s[s];
                    if let Some(e) = d.err.take() { return er(e); }
                    if d.fin || d.shut_rd || d.dead { return ok(0); }
                    return wait(nb);
                }
                let k = n.min(self.conns[c].s[s].rbuf.len());
                if k == 0 { return ok(0); }
                let d: Vec<u8> = self.conns[c].s[s].rbuf.drain(..k).collect();
                self.consumed(c, 1 - s, k);
                okd(k as i64, d)
            }
            OKind::PidFd(_) | OKind::Sock(_) => er(ENOTCONN),
            _ => { let _ = pid; er(EINVAL) }
        }
    }
    fn consumed(&mut self, c: usize, sender: usize, k: usize) {
        let d = &mut self.conns[c].s[sender];
        d.unread = d.unread.saturating_sub(k);
        self.poke_side(c, sender);
        if let Owner::Actor(a) = self.conns[c].s[sender].owner { let _ = a; self.dirty = true; }
    }
    pub fn file_write(&mut self, i: usize, pos: usize, data: &[u8]) -> Out {
        if let Some(e) = self.inodes[i].write_err { self.fault(&format!("disk:{}", errname(e))); return er(e); }
        let mut n = data.len();
        if let Some(l) = self.inodes[i].limit {
            let l = l as usize;
            if pos >= l && n > 0 { self.fault("disk:ENOSPC"); return er(ENOSPC); }
            if pos + n > l { self.fault("disk:short"); n = l - pos; }
        }
        let d = &mut self.inodes[i].data;
        if d.len() < pos + n { d.resize(pos + n, 0); }
        d[pos..pos + n].copy_from_slice(&data[..n]);
        ok(n as i64)
    }
    /// `t`: the task, if a real one.
    pub fn sys_write(&mut self, pid: Pid, fd: i32, o: usize, data: &[u8], sigpipe: bool, t: Option<usize>) -> Out {
        let fl = self.of(o).flags;
        let nb = fl & O_NONBLOCK != 0;
        if fl & O_ACC == O_RDONLY { return er(EBADF); }
        let wait = |x: bool| if x { er(EAGAIN) } else { Out::Block(None) };
        let r = match &self.of(o).kind {
            OKind::PipeW(p) => {
                let p = *p;
                // A blocking write is complete when all of it has been taken.
                let part = match t { Some(t) if !nb => std::mem::take(&mut self.tasks[t].part), _ => 0 };
                if self.pipes[p].readers == 0 { if sigpipe { self.post_signal(pid, SIGPIPE); if !self.live(pid) { return Out::Gone; } } return if part > 0 { ok(part as i64) } else { er(EPIPE) }; }
                let data = &data[part..];
                let room = self.pipes[p].cap.saturating_sub(self.pipes[p].buf.len());
                if room == 0 || (data.len() <= 4096 && data.len() > room) { return if data.is_empty() { ok(part as i64) } else { if let Some(t) = t { self.tasks[t].part = part; } wait(nb) }; }
                let k = data.len().min(room);
                self.pipes[p].buf.extend(&data[..k]);
                self.pipes[p].total += k as u64;
                self.poke_pipe(p);
                if let (Some(t), true) = (t, k < data.len() && !nb) { self.tasks[t].part = part + k; return wait(false); }
                ok((part + k) as i64)
            }
            OKind::Reg(i) => {
                let i = *i;
                let mut data = data;
                if let Some(t) = t { let k = self.short(t, data.len()); data = &data[..k]; }
                let pos = if fl & O_APPEND != 0 { self.inodes[i].data.len() } else { self.of(o).pos as usize };
                let r = self.file_write(i, pos, data);
                if let Out::Done(Rep { ret, .. }) = &r { if *ret > 0 { let e = pos as u64 + *ret as u64; self.of_mut(o).pos = e; } }
                r
            }
            OKind::Null => ok(data.len() as i64),
            OKind::Sink(s) => {
                let s = *s;
                let mut data = data;
                if self.sinks[s].short { if let Some(t) = t { let k = self.short(t, data.len()); data = &data[..k]; } }
                if let Some(e) = self.sinks[s].err { self.fault(&format!("stdio:{}", errname(e))); if e == EPIPE && sigpipe { self.post_signal(pid, SIGPIPE); if !self.live(pid) { return Out::Gone; } } return er(e); }
                if let Some(l) = self.sinks[s].limit { let room = (l as usize).saturating_sub(self.sinks[s].data.len()); if room == 0 && !data.is_empty() { self.fault("stdio:ENOSPC"); return er(ENOSPC); } if data.len() > room { data = &data[..room]; self.fault("stdio:short"); } }
                self.sinks[s].data.extend_from_slice(data);
                self.sinks[s].by.push((pid, data.len()));
                ok(data.len() as i64)
            }
            OKind::Eventfd(v) => { let x = u64::from_le_bytes(data[..8].try_into().unwrap_or([0; 8])); let v = v.saturating_add(x); self.of_mut(o).kind = OKind::Eventfd(v); self.poke(o); ok(8) }
            OKind::Unix(u, s) => {
                let (u, s) = (*u, *s);
                if self.unix[u].closed[1 - s] { return er(EPIPE); }
                if self.unix[u].buf[1 - s].len() > 65536 { return wait(nb); }
                self.unix[u].buf[1 - s].extend(data);
                self.poke_unix(u);
                ok(data.len() as i64)
            }
            OKind::Conn(c, s) => {
                let (c, s) = (*c, *s);
                match self.conns[c].state { CState::Connecting => return wait(nb), CState::Refused(_) => return er(ENOTCONN), _ => {} }
                let d = &mut self.conns[c].s[s];
                if let Some(e) = d.err.take() { return er(e); }
                if d.sent_fin || d.dead { if sigpipe { self.post_signal(pid, SIGPIPE); if !self.live(pid) { return Out::Gone; } } return er(EPIPE); }
                let room = d.cap.saturating_sub(d.unread);
                if room == 0 { return if data.is_empty() { ok(0) } else { wait(nb) }; }
                let mut k = data.len().min(room);
                if let Some(t) = t { k = self.short(t, k); }
                self.queue_data(c, s, &data[..k]);
                ok(k as i64)
            }
            OKind::Sock(_) => er(ENOTCONN),
            _ => er(EINVAL),
        };
        let _ = fd;
        r
    }
    fn sys_open(&mut self, pid: Pid, path: &str, flags: i32, mode: u32, t: usize) -> Out {
        let acc = flags & O_ACC;
        if path == "/dev/null" { let o = self.new_of(OKind::Null, flags & (O_ACC | O_NONBLOCK | O_APPEND), pid); return self.fdret(pid, o, flags & O_CLOEXEC != 0); }
        if path.starts_with("/proc/") {
            return match self.procfile(path) { Some(d) => { if let Some((p, f)) = path[6..].split_once('/') { if let Ok(of) = p.parse() { self.record(Rec::ProcFile { by: pid, pid: of, stat: f == "stat", data: d.clone() }); } } let o = self.new_of(OKind::Mem(d), O_RDONLY, pid); self.fdret(pid, o, flags & O_CLOEXEC != 0) } None => er(ENOENT) };
        }
        let i = match self.lookup(path) {
            Some(i) => {
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 { return er(EEXIST); }
                let n = &self.inodes[i];
                if n.is_dir && acc != O_RDONLY { return er(EISDIR); }
                if acc != O_RDONLY && n.mode & 0o200 == 0 { return er(EACCES); }
                if acc != O_WRONLY && n.mode & 0o400 == 0 { return er(EACCES); }
                if let Some(p) = n.is_fifo {
                    let rd = acc == O_RDONLY;
                    let o;
                    // Registered as opener while waiting for the other end.
                    if rd { if self.pipes[p].writers == 0 && flags & O_NONBLOCK == 0 { self.probe("fifo_open_blocks"); return Out::Block(None); } self.pipes[p].readers += 1; o = self.new_of(OKind::PipeR(p), O_RDONLY | (flags & O_NONBLOCK), pid); }
                    else { self.pipes[p].writers += 1; o = self.new_of(OKind::PipeW(p), O_WRONLY | (flags & O_NONBLOCK), pid); }
                    self.poke_pipe(p);
                    return self.fdret(pid, o, flags & O_CLOEXEC != 0);
                }
                if flags & O_TRUNC != 0 && acc != O_RDONLY { self.inodes[i].data.clear(); }
                i
            }
            None => {
                if flags & O_CREAT == 0 { return er(ENOENT); }
                let dir = match path.rfind('/') { Some(0) => "/", Some(k) => &path[..k], None => return er(EACCES) };
                match self.fs.get(dir) { Some(&d) => { if !self.inodes[d].is_dir { return er(ENOTDIR); } if self.inodes[d].mode & 0o200 == 0 { return er(EACCES); } } None => return er(ENOENT) }
                self.mkfile(path, b"", mode & 0o7777 & !0o022)
            }
        };
        let _ = t;
        self.inodes[i].opens += 1;
        let o = self.new_of(OKind::Reg(i), flags & (O_ACC | O_NONBLOCK | O_APPEND), pid);
        self.fdret(pid, o, flags & O_CLOEXEC != 0)
    }
    fn procfile(&self, path: &str) -> Option<Vec<u8>> {
        if path == "/proc/uptime" { return Some(format!("{}.{:02} 100.00\n", self.now / SEC, self.now % SEC / 10_000_000).into_bytes()); }
        let r = path.strip_prefix("/proc/")?;
        let (p, f) = r.split_once('/')?;
        let pid: Pid = p.parse().ok()?;
        let q = self.procs.get(&pid)?;
        if q.state == PState::Reaped { return None; }
        let z = matches!(q.state, PState::Zombie(_));
        let mut ign = 0u64;
        for s in 1..=31 { if q.disp[s] == Disp::Ignore { ign |= 1 << (s - 1); } }
        let mut caught = 0u64;
        for s in 1..=31 { if matches!(q.disp[s], Disp::Handler { .. }) { caught |= 1 << (s - 1); } }
        // Numbers of its own.
        let n = crate::rng::mix(q.start ^ pid as u64);
        let m = |k: u64| (n >> 8) % k;
        let tty = if m(5) == 0 { let minor = 40 + m(1000); (minor & 0xff) | (136 << 8) | ((minor & !0xff) << 12) } else { 0 };
        let (code, exit) = match q.state { PState::Zombie(s) => ("Z", s), _ => ("S", 0) };
        match f {
            "stat" => { let mut v = format!("{} (", pid).into_bytes(); v.extend(&q.comm); v.extend(format!(
                ") {} {} {} {} {} -1 4194304 {} {} {} {} {} {} {} {} {} {} {} 0 {} {} {} {} 1 1 0 0 0 {} {} {} {} 0 0 0 17 {} {} {} {} {} {} 1 1 1 1 1 1 1 {}\n",
                code, q.ppid, q.pgid, q.sid, tty, 100 + pid % 7, m(2), m(3), m(5), pid % 5, pid % 3, m(7), m(11), 20 + m(9) as i64 - 4, m(13) as i64 - 6, 1 + m(4), q.start / 10_000_000,
                if z { 0 } else { 4096 * (1000 + pid as i64) }, if z { 0 } else { 200 + m(6) as i64 }, if m(3) == 0 { 1u64 << 30 } else { u64::MAX }, q.pending as i64 & 0x7fffffff, q.blocked as i64 & 0x7fffffff, ign & 0x7fffffff, caught & 0x7fffffff, m(8), m(10), m(2), m(17), m(19), m(21), exit
            ).into_bytes()); Some(v) }
            "statm" => Some(if z { b"0 0 0 0 0 0 0\n".to_vec() } else { format!("{} 200 100 50 0 300 0\n", 1000 + pid).into_bytes() }),
            _ => None,
        }
    }

    // -------------------------------------------------------------- processes
    fn sys_fork(&mut self, t: usize) -> Out {
        let ppid = self.tasks[t].pid;
        let pid = self.alloc_pid();
        let (ours, theirs) = UnixStream::pair().unwrap();
        let fd = std::os::fd::IntoRawFd::into_raw_fd(theirs);
        let par = self.proc(ppid);
        let fds = par.fds.clone();
        let k = self.nforks;
        let np = Proc { pid, ppid, sid: par.sid, pgid: par.pgid, fds: fds.clone(), state: PState::Live, kind: PKind::Real, disp: par.disp, pending: 0, blocked: par.blocked, image: par.image.clone(), comm: par.comm.clone(), start: self.now, end: 0, role: Role::Child(k), sys_real: 0, stopped: false, heap: 0 };
        self.nforks += 1;
        for e in fds.values() { self.of_mut(e.of).refs += 1; }
        self.procs.insert(pid, np);
        let n = self.add_task(pid, ours, false);
        self.record(Rec::Fork { parent: ppid, pid });
        // Signals wait for the caller's next call: the real fork comes first.
        let sg = 0;
        let rq = self.tasks[t].req.clone().unwrap();
        self.log_call(t, &rq, pid as i64, 0);
        self.reply(t, Rep { ret: pid as i64, passfd: Some(fd), ..Default::default() }, sg);
        // Both run until their next call.
        self.await_real(t);
        self.await_real(n);
        Out::Gone
    }
    fn sys_execve(&mut self, t: usize, rq: &Req) -> Out {
        let pid = self.tasks[t].pid;
        let d = &rq.data;
        let mut o = 0;
        let mut str_at = |d: &Vec<u8>| { let n = u32le(d, o) as usize; let s = d[o + 4..o + 4 + n].to_vec(); o += 4 + n; s };
        let path = str_at(d);
        let mut vecs = vec![];
        for _ in 0..2 {
            let n = u32le(d, o) as usize;
            o += 4;
            let mut v = vec![];
            for _ in 0..n { let k = u32le(d, o) as usize; v.push(d[o + 4..o + 4 + k].to_vec()); o += 4 + k; }
            vecs.push(v);
        }
        let env = vecs.pop().unwrap();
        let argv = vecs.pop().unwrap();
        let mut path = String::from_utf8_lossy(&path).to_string();
        if rq.a[0] == 1 && !path.contains('/') {
            // PATH search of the calling process: the simulated PATH is /bin.
            path = format!("/bin/{}", path);
        }
        if !self.exes.contains_key(&path) {
            let e = if path.len() > 4095 || path.split('/').any(|c| c.len() > 255) { ENAMETOOLONG } else { match self.lookup(&path) { Some(i) => if self.inodes[i].is_dir || self.inodes[i].mode & 0o111 == 0 { EACCES } else { ENOEXEC }, None => ENOENT } };
            self.record(Rec::ExecFail { pid, err: e });
            return er(e);
        }
        if matches!(self.proc(pid).role, Role::Main(_)) { self.record(Rec::ChildRuns { pid, op: "EXECVE by supervisor" }); }
        // Close-on-exec.
        let ce: Vec<i32> = self.proc(pid).fds.iter().filter(|(_, e)| e.cloexec).map(|(f, _)| *f).collect();
        for f in ce { let e = self.pm(pid).fds.remove(&f).unwrap(); self.unref(e.of); }
        let mut ign = 0;
        { let p = self.pm(pid); for s in 1..=64 { if matches!(p.disp[s], Disp::Handler { .. }) { p.disp[s] = Disp::Default; } if p.disp[s] == Disp::Ignore { ign |= 1u64 << (s - 1); } } }
        let fds: BTreeMap<i32, FdDesc> = self.proc(pid).fds.clone().iter().map(|(f, e)| (*f, self.describe(e.of))).collect();
        let prog = self.program_for(&argv, &env);
        let (sid, blocked) = { let p = self.proc(pid); (p.sid, p.blocked) };
        self.record(Rec::Exec { pid, path: path.clone(), argv: argv.clone(), env: env.clone(), fds, sid, ignored: ign, blocked });
        self.log_call(t, rq, 0, 0);
        self.reply(t, Rep::default(), 0);
        self.tasks[t].st = TState::Dead;
        // Wait for the real process to vanish (EOF), so that it cannot linger.
        if let Some(ch) = &mut self.tasks[t].ch { let mut b = [0u8; 1]; let _ = ch.read(&mut b); }
        self.tasks[t].ch = None;
        let p = self.pm(pid);
        p.comm = path.rsplit('/').next().unwrap_or("").bytes().take(15).collect();
        p.image = Image { path, argv, env };
        p.role = Role::Script;
        let seed = hash2(self.sched.seed, pid as u64);
        self.pm(pid).kind = PKind::Script(crate::vm::Vm::new(prog, seed));
        self.vm_schedule(pid);
        Out::Gone
    }
    fn program_for(&self, argv: &[Vec<u8>], env: &[Vec<u8>]) -> crate::vm::Program {
        for s in argv.iter().chain(env.iter()) {
            let s = String::from_utf8_lossy(s);
            if let Some(k) = s.find("@P") { if let Some(p) = self.programs.get(&s[k + 1..]) { return p.clone(); } }
        }
        self.programs.get("P*").cloned().unwrap_or_default()
    }
    pub fn describe(&self, of: usize) -> FdDesc {
        let o = self.of(of);
        FdDesc { of, what: match &o.kind { OKind::PipeR(p) => FdWhat::PipeR(*p), OKind::PipeW(p) => FdWhat::PipeW(*p), OKind::Reg(i) => FdWhat::File { ino: *i, pos: o.pos }, OKind::Null => FdWhat::Null, OKind::Sink(s) => FdWhat::Sink(*s), OKind::Conn(..) | OKind::Listener(_) | OKind::Sock(_) | OKind::Unix(..) => FdWhat::Socket, OKind::Epoll(_) => FdWhat::Epoll, _ => FdWhat::Other },
            access: o.flags & O_ACC, append: o.flags & O_APPEND != 0, nonblock: o.flags & O_NONBLOCK != 0 }
    }
    /// Starts an unrelated scripted process (not a child of the supervisor).
    pub fn spawn_foreign(&mut self, pid: Option<Pid>, prog: crate::vm::Program) -> Pid {
        let pid = pid.unwrap_or_else(|| self.alloc_pid());
        let seed = hash2(self.sched.seed, pid as u64 + 999);
        self.procs.insert(pid, Proc { pid, ppid: 1, sid: pid, pgid: pid, fds: BTreeMap::new(), state: PState::Live, kind: PKind::Script(crate::vm::Vm::new(prog, seed)), disp: [Disp::Default; 65], pending: 0, blocked: 0, image: Image::default(), comm: b"foreign".to_vec(), start: self.now, end: 0, role: Role::Foreign, sys_real: 0, stopped: false, heap: 0 });
        self.vm_schedule(pid);
        pid
    }
    pub fn spawn_grandchild(&mut self, parent: Pid, prog: crate::vm::Program) -> Pid {
        let pid = self.alloc_pid();
        let seed = hash2(self.sched.seed, pid as u64 + 555);
        let p = self.proc(parent);
        let np = Proc { pid, ppid: parent, sid: p.sid, pgid: p.pgid, fds: p.fds.clone(), state: PState::Live, kind: PKind::Script(crate::vm::Vm::new(prog, seed)), disp: p.disp, pending: 0, blocked: p.blocked, image: p.image.clone(), comm: p.comm.clone(), start: self.now, end: 0, role: Role::Script, sys_real: 0, stopped: false, heap: 0 };
        for e in np.fds.values().copied().collect::<Vec<_>>() { self.of_mut(e.of).refs += 1; }
        self.procs.insert(pid, np);
        self.record(Rec::Fork { parent, pid });
        self.vm_schedule(pid);
        pid
    }
    fn reap(&mut self, pid: Pid, by: Pid, status: i32) {
        self.pm(pid).state = PState::Reaped;
        self.record(Rec::Reap { pid, by, status });
        self.dirty = true;
    }
    pub fn terminate(&mut self, pid: Pid, status: i32) {
        if !self.live(pid) { return; }
        let now = self.now;
        let real = matches!(self.proc(pid).kind, PKind::Real);
        let fds: Vec<FdEnt> = std::mem::take(&mut self.pm(pid).fds).into_values().collect();
        { let p = self.pm(pid); p.state = PState::Zombie(status); p.end = now; }
        let ppid = self.proc(pid).ppid;
        self.record(Rec::Exit { pid, status, parent: ppid });
        for e in fds { self.unref(e.of); }
        if real {
            for t in 0..self.tasks.len() { if self.tasks[t].pid == pid { self.tasks[t].st = TState::Dead; self.tasks[t].gen += 1; self.tasks[t].ch = None; } }
        }
        // Orphans go to init.
        let kids: Vec<Pid> = self.procs.values().filter(|c| c.ppid == pid && c.state != PState::Reaped).map(|c| c.pid).collect();
        for k in kids { self.pm(k).ppid = 1; if let PState::Zombie(s) = self.proc(k).state { self.reap(k, 1, s); } }
        if ppid == 1 || !self.live(ppid) { self.reap(pid, 1, status); }
        else if self.proc(ppid).disp[SIGCHLD as usize] == Disp::Ignore { self.reap(pid, 0, status); }
        else { self.post_signal(ppid, SIGCHLD); }
        self.dirty = true;
    }
    fn sys_kill(&mut self, from: Pid, to: Pid, sig: i32) -> Out {
        if sig < 0 || sig > 64 { return er(EINVAL); }
        let targets: Vec<Pid> = if to > 0 { vec![to] } else if to == 0 { let g = self.proc(from).pgid; self.procs.values().filter(|p| p.pgid == g && p.state == PState::Live).map(|p| p.pid).collect() } else if to == -1 { self.procs.values().filter(|p| p.state == PState::Live && p.pid != from).map(|p| p.pid).collect() } else { self.procs.values().filter(|p| p.pgid == -to && p.state == PState::Live).map(|p| p.pid).collect() };
        let mut any = false;
        for p in targets {
            let exists = self.procs.get(&p).map_or(false, |x| x.state != PState::Reaped);
            self.record(Rec::Signal { from, to: p, sig, ok: exists });
            if exists { any = true; if sig != 0 { self.post_signal(p, sig); } }
        }
        if !any { return er(ESRCH); }
        if !self.live(from) { return Out::Gone; }
        ok(0)
    }
    pub fn post_signal(&mut self, pid: Pid, sig: i32) {
        if !self.live(pid) { return; }
        let s = sig as usize;
        let fatal = match sig { SIGCHLD | SIGCONT | SIGURG | SIGWINCH => false, _ => true };
        let stop = matches!(sig, SIGSTOP | SIGTSTP | SIGTTIN | SIGTTOU);
        self.dirty = true;
        if sig == SIGCONT { if self.proc(pid).stopped { self.pm(pid).stopped = false; self.resume(pid); } }
        if sig == SIGKILL { self.terminate(pid, SIGKILL); return; }
        let d = self.proc(pid).disp[s];
        if let PKind::Script(_) = self.proc(pid).kind {
            if self.vm_signal(pid, sig) { return; }
        }
        if stop && (sig == SIGSTOP || d == Disp::Default) { self.pm(pid).stopped = true; return; }
        match d {
            Disp::Ignore => {}
            Disp::Default => if fatal { if self.proc(pid).blocked >> (s - 1) & 1 == 1 { self.pm(pid).pending |= 1 << (s - 1); } else { let core = matches!(sig, SIGQUIT | SIGILL | SIGTRAP | SIGABRT | SIGBUS | SIGFPE | SIGSEGV | SIGXCPU | SIGXFSZ | SIGSYS); self.terminate(pid, if core && pid % 2 == 1 { sig | 0x80 } else { sig }); } },
            Disp::Handler { .. } => {
                if self.pm(pid).pending >> (s - 1) & 1 == 1 { self.probe("signal_merged"); if sig == SIGCHLD { *self.stats.faults.entry("sigchld_merged".into()).or_insert(0) += 1; } }
                self.pm(pid).pending |= 1 << (s - 1);
            }
        }
    }
    fn resume(&mut self, pid: Pid) {
        for t in 0..self.tasks.len() { if self.tasks[t].pid == pid && matches!(self.tasks[t].st, TState::Blocked) { self.tasks[t].gen += 1; self.tasks[t].woken = true; let g = self.tasks[t].gen; self.after(1000, Ev::Serve(t, g)); } }
        if let PKind::Script(_) = self.proc(pid).kind { self.vm_schedule(pid); }
    }

    // -------------------------------------------------------------- network
    pub fn new_conn(&mut self, dst: (u32, u16), owner: Owner) -> usize {
        let cap = self.sched.sock_cap;
        let side = |o| Side { owner: o, rbuf: VecDeque::new(), fin: false, err: None, dead: false, sent_fin: false, shut_rd: false, unread: 0, cap, q: VecDeque::new(), last: 0, held: false, sent_total: 0 };
        let sp = 40000 + self.conns.len() as u16;
        self.conns.push(Conn { s: [side(owner), side(Owner::Backlog)], state: CState::Connecting, dst, src_port: sp, t0: self.now, reported: false });
        let c = self.conns.len() - 1;
        let l = self.latency();
        self.after(l, Ev::ConnArrive(c));
        c
    }
    pub fn latency(&mut self) -> Time { (self.sched.net_lat_us + self.net_rng.below(self.sched.net_jit_us + 1)) * US }
    fn conn_arrive(&mut self, c: usize) {
        if self.conns[c].s[0].owner == Owner::Closed { return; }
        let dst = self.conns[c].dst;
        let back = self.latency();
        if dst.1 == self.syn_port && self.syn_port != 0 {
            // There is no name to look up: refuse instead.
            let k = match self.syn_plan.pop_front().unwrap_or(self.syn_then) { 3 => 1, k => k };
            self.syns.push((self.conns[c].t0, c, k));
            if k == 2 { self.fault("net:syn_blackhole"); self.after(127 * SEC, Ev::ConnDone(c, ETIMEDOUT)); return; }
            if k == 1 { self.fault("net:refused"); self.after(back, Ev::ConnDone(c, ECONNREFUSED)); return; }
        }
        if self.blackhole.contains(&dst) { self.fault("net:syn_blackhole"); self.after(127 * SEC, Ev::ConnDone(c, ETIMEDOUT)); return; }
        if self.refuse.contains(&dst) { self.fault("net:refused"); self.after(back, Ev::ConnDone(c, ECONNREFUSED)); return; }
        let l = self.listeners.iter().position(|l| l.port == dst.1 && (l.of.is_some() || l.actor.is_some()) && (l.ip == dst.0 || l.ip == 0));
        match l {
            None => { self.after(back, Ev::ConnDone(c, ECONNREFUSED)); }
            Some(l) => {
                self.conns[c].state = CState::Est; // both ends usable once ConnDone reaches the client
                self.conns[c].state = CState::Connecting;
                if let Some(a) = self.listeners[l].actor { self.conns[c].s[1].owner = Owner::Actor(a); }
                else { self.listeners[l].backlog.push_back(c); let of = self.listeners[l].of.unwrap(); self.poke(of); }
                self.after(back, Ev::ConnDone(c, 0));
                if let Some(a) = self.listeners[l].actor { self.actor(a, AEv::Accept(c)); }
            }
        }
    }
    fn conn_done(&mut self, c: usize, e: i32) {
        if self.conns[c].state != CState::Connecting { return; }
        let gone = self.conns[c].s[0].owner == Owner::Closed;
        self.conns[c].state = if e == 0 { CState::Est } else { CState::Refused(e) };
        if gone { if e == 0 { self.conns[c].s[0].dead = true; self.queue_seg(c, 0, Seg::Fin); } return; }
        self.poke_side(c, 0);
        if let Owner::Actor(a) = self.conns[c].s[0].owner { self.actor(a, if e == 0 { AEv::Connected(c) } else { AEv::Failed(c, e) }); }
        // Anything the acceptor sent meanwhile.
        let n = self.conns[c].s[1].q.len();
        for _ in 0..n { self.after(1000, Ev::Net(c, 1)); }
    }
    /// Sends bytes from a side (no flow control here).
    pub fn queue_data(&mut self, c: usize, s: usize, data: &[u8]) {
        if data.is_empty() { return; }
        self.conns[c].s[s].unread += data.len();
        self.conns[c].s[s].sent_total += data.len() as u64;
        let mut rest = data;
        while !rest.is_empty() {
            let k = if self.sched.frag_p > 0.0 && rest.len() > 1 && self.net_rng.p(self.sched.frag_p) { *self.stats.faults.entry("net:fragment".into()).or_insert(0) += 1; let lo = (self.conns[c].s[s].sent_total / 100) as usize; (1 + lo + self.net_rng.below(rest.len() as u64 - 1) as usize).min(rest.len()) } else { rest.len() };
            self.queue_seg(c, s, Seg::Data(rest[..k].to_vec()));
            rest = &rest[k..];
        }
    }
    fn queue_seg(&mut self, c: usize, s: usize, seg: Seg) {
        let t = (self.now + self.latency()).max(self.conns[c].s[s].last + 1);
        self.conns[c].s[s].last = t;
        self.conns[c].s[s].q.push_back((t, seg));
        self.at(t, Ev::Net(c, s));
    }
    pub fn hold(&mut self, c: usize, s: usize, h: bool) {
        self.conns[c].s[s].held = h;
        if !h { let n = self.conns[c].s[s].q.len(); for _ in 0..n { self.after(1000, Ev::Net(c, s)); } }
    }
    fn net_deliver(&mut self, c: usize, s: usize) {
        if self.conns[c].s[s].held { return; }
        if self.conns[c].state == CState::Connecting && s == 1 { return; }
        let seg = match self.conns[c].s[s].q.front() { Some((t, _)) if *t <= self.now => self.conns[c].s[s].q.pop_front().unwrap().1, Some((t, _)) => { let t = *t; self.at(t, Ev::Net(c, s)); return; } None => return };
        let r = 1 - s;
        let own = self.conns[c].s[r].owner;
        match seg {
            Seg::Rst => { self.kill_side(c, r, ECONNRESET); }
            Seg::Data(d) => {
                if own == Owner::Closed || self.conns[c].s[r].dead || self.conns[c].s[r].shut_rd && own != Owner::Backlog {
                    if own == Owner::Closed && !self.conns[c].s[s].dead { self.queue_seg(c, r, Seg::Rst); }
                    self.consumed(c, s, d.len());
                    return;
                }
                self.conns[c].s[r].rbuf.extend(d);
                self.poke_side(c, r);
                if let Owner::Actor(a) = own { self.actor(a, AEv::Data(c)); }
            }
            Seg::Fin => {
                self.conns[c].s[r].fin = true;
                self.poke_side(c, r);
                if let Owner::Actor(a) = own { self.actor(a, AEv::Eof(c)); }
            }
        }
    }
    fn kill_side(&mut self, c: usize, s: usize, e: i32) {
        let d = &mut self.conns[c].s[s];
        if d.dead { return; }
        d.dead = true;
        d.err = Some(e);
        d.q.clear();
        d.unread = 0;
        let own = d.owner;
        self.poke_side(c, s);
        if let Owner::Actor(a) = own { self.actor(a, AEv::Rst(c)); }
    }
    /// Side `s` aborts the connection.
    pub fn reset_conn(&mut self, c: usize, s: usize) {
        if self.conns[c].state != CState::Est && s == 0 { self.conns[c].s[0].owner = Owner::Closed; return; }
        if !self.conns[c].s[s].dead { self.queue_seg(c, s, Seg::Rst); }
        let d = &mut self.conns[c].s[s];
        d.dead = true;
        d.owner = Owner::Closed;
        d.rbuf.clear();
    }
    pub fn established(&self, c: usize) -> bool { self.conns[c].state == CState::Est }
    /// Breaks an established connection under both ends (e.g. a middlebox reset).
    pub fn break_conn(&mut self, c: usize) {
        if self.conns[c].state != CState::Est { return; }
        for s in 0..2 { self.conns[c].s[s].held = false; self.conns[c].s[s].q.clear(); }
        self.kill_side(c, 0, ECONNRESET);
        self.kill_side(c, 1, ECONNRESET);
    }
    /// Breaks an established connection under side `s` only; what it sent still arrives.
    pub fn break_half(&mut self, c: usize, s: usize) {
        if self.conns[c].state != CState::Est { return; }
        let q = std::mem::take(&mut self.conns[c].s[s].q);
        self.kill_side(c, s, ECONNRESET);
        self.conns[c].s[s].q = q;
    }
    pub fn a_break(&mut self, c: usize, s: usize) { self.conns[c].s[0].held = false; self.conns[c].s[1].held = false; self.conns[c].s[1 - s].q.clear(); self.kill_side(c, s, ECONNRESET); }
    pub fn close_conn(&mut self, c: usize, s: usize) {
        let st = self.conns[c].state;
        let d = &mut self.conns[c].s[s];
        d.owner = Owner::Closed;
        if st != CState::Est { if st == CState::Connecting && s == 0 { return; } if st == CState::Connecting { self.queue_seg(c, s, Seg::Fin); } return; }
        if d.dead { return; }
        if !d.rbuf.is_empty() { let n = d.rbuf.len(); d.rbuf.clear(); self.consumed(c, 1 - s, n); self.queue_seg(c, s, Seg::Rst); self.conns[c].s[s].dead = true; return; }
        if !d.sent_fin { d.sent_fin = true; self.queue_seg(c, s, Seg::Fin); }
    }
    // Actor-side socket calls.
    pub fn a_listen(&mut self, a: usize, ip: u32, port: u16) -> usize { self.listeners.push(Listener { ip, port, of: None, actor: Some(a), backlog: VecDeque::new(), cap: 128 }); self.listeners.len() - 1 }
    pub fn a_connect(&mut self, a: usize, ip: u32, port: u16) -> usize { self.new_conn((ip, port), Owner::Actor(a)) }
    pub fn a_side(&self, c: usize, a: usize) -> usize { if self.conns[c].s[0].owner == Owner::Actor(a) { 0 } else { 1 } }
    pub fn a_recv(&mut self, c: usize, s: usize) -> Vec<u8> { let d: Vec<u8> = self.conns[c].s[s].rbuf.drain(..).collect(); if !d.is_empty() { self.consumed(c, 1 - s, d.len()); } d }
    pub fn a_shutdown(&mut self, c: usize, s: usize) { if !self.conns[c].s[s].sent_fin && !self.conns[c].s[s].dead { self.conns[c].s[s].sent_fin = true; self.queue_seg(c, s, Seg::Fin); } }

    /// Ends all real processes.
    pub fn shutdown_real(&mut self) {
        for t in &mut self.tasks { t.ch = None; }
        for mut c in std::mem::take(&mut self.real) {
            unsafe { libc::kill(-(c.id() as i32), libc::SIGKILL); }
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}
impl Drop for World { fn drop(&mut self) { self.shutdown_real(); } }

pub fn rusage_of(pid: Pid) -> [i64; 18] {
    let p = pid as i64;
    // utime, stime, maxrss, ixrss, idrss, isrss, minflt, majflt, nswap, inblock, oublock, msgsnd, msgrcv, nsignals, nvcsw, nivcsw
    [p % 5, p * 13 % 1_000_000, p % 3, p * 7 % 1_000_000, 1000 + p, 31 + p % 3, 41 + p % 3, 51 + p % 3, 100 + p % 7, p % 2, 61 + p % 5, p % 11, p % 13, 71 + p % 3, 81 + p % 3, 91 + p % 3, 3 + p % 17, 200 + p % 19]
}
fn vstat(n: &Inode, i: usize) -> Vec<u8> { let mut d = vec![]; for x in [n.data.len() as u64, n.mode as u64, i as u64 + 1, n.nlink as u64] { d.extend(x.to_le_bytes()); } d }
fn sa(d: &[u8]) -> Option<(u32, u16)> { if d.len() < 8 || u16::from_le_bytes([d[0], d[1]]) != AF_INET as u16 { return None; } Some((u32::from_be_bytes([d[4], d[5], d[6], d[7]]), u16::from_be_bytes([d[2], d[3]]))) }
fn mksa(ip: u32, port: u16) -> Vec<u8> { let mut d = vec![0u8; 16]; d[0..2].copy_from_slice(&(AF_INET as u16).to_le_bytes()); d[2..4].copy_from_slice(&port.to_be_bytes()); d[4..8].copy_from_slice(&ip.to_be_bytes()); d }
fn send_fd(sock: i32, fd: i32) {
    unsafe {
        let mut c = b'f';
        let mut io = libc::iovec { iov_base: &mut c as *mut u8 as *mut _, iov_len: 1 };
        let mut cb = [0u64; 8];
        let mut m: libc::msghdr = std::mem::zeroed();
        m.msg_iov = &mut io;
        m.msg_iovlen = 1;
        m.msg_control = cb.as_mut_ptr() as *mut _;
        m.msg_controllen = libc::CMSG_SPACE(4) as _;
        let h = libc::CMSG_FIRSTHDR(&m);
        (*h).cmsg_level = libc::SOL_SOCKET;
        (*h).cmsg_type = libc::SCM_RIGHTS;
        (*h).cmsg_len = libc::CMSG_LEN(4) as _;
        *(libc::CMSG_DATA(h) as *mut i32) = fd;
        libc::sendmsg(sock, &m, 0);
    }
}
pub fn errname(e: i32) -> String {
    for (n, s) in [(EAGAIN, "EAGAIN"), (ENOMEM, "ENOMEM"), (EMFILE, "EMFILE"), (ENFILE, "ENFILE"), (EINTR, "EINTR"), (EIO, "EIO"), (ENOSPC, "ENOSPC"), (EACCES, "EACCES"), (ENOENT, "ENOENT"), (EPERM, "EPERM"), (EBADF, "EBADF"), (ECONNABORTED, "ECONNABORTED"), (ECONNRESET, "ECONNRESET"), (ECONNREFUSED, "ECONNREFUSED"), (ETIMEDOUT, "ETIMEDOUT"), (EPIPE, "EPIPE"), (E2BIG, "E2BIG"), (ENOEXEC, "ENOEXEC"), (ESRCH, "ESRCH"), (ECHILD, "ECHILD"), (EINPROGRESS, "EINPROGRESS"), (EDQUOT, "EDQUOT"), (EROFS, "EROFS"), (EINVAL, "EINVAL"), (EEXIST, "EEXIST"), (EISDIR, "EISDIR"), (ENOTDIR, "ENOTDIR"), (ELOOP, "ELOOP"), (ETXTBSY, "ETXTBSY")] { if n == e { return s.into(); } }
    format!("errno{}", e)
}
pub fn show(d: &[u8], n: usize) -> String { let s = String::from_utf8_lossy(&d[..d.len().min(n)]).to_string(); if d.len() > n { format!("{}..[{}]", s, d.len()) } else { s } }
fn brief(r: &Rec) -> String { let s = format!("{:?}", match r { Rec::Write { pid, fd, what, data } => return format!("Write {} fd={} {:?} {} {:?}", pid, fd, what, data.len(), show(data, 24)), Rec::ReadData { pid, fd, what, data } => return format!("ReadData {} fd={} {:?} {} {:?}", pid, fd, what, data.len(), show(data, 24)), x => x.clone() }); s.chars().take(400).collect() }
