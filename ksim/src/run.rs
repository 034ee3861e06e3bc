//! Executes one plan under the simulated kernel.
use crate::hist::*;
use crate::http::Client;
use crate::kernel::*;
use crate::plan::*;
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Paths { pub bin: String, pub shim: String, pub certs: String }

pub struct RunOut {
    pub w: World,
    pub h: SharedHist,
    pub main: Pid,
    pub end: Time,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// Descriptors of the supervisor at first idle, by kind.
    pub base_fds: BTreeMap<String, usize>,
    pub obs_done: bool,
}
pub const T0: Time = 1000 * SEC;

pub fn unhex(v: &str) -> Vec<u8> {
    match v.strip_prefix("hex:") { Some(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(b'?')).collect(), None => v.as_bytes().to_vec() }
}
struct Director { events: Vec<(u64, Evt)>, main: Pid, server: Option<usize>, e2e: bool }
impl Actor for Director {
    fn on(&mut self, w: &mut World, _me: usize, ev: AEv) {
        let AEv::Timer(k) = ev else { return };
        match self.events[k as usize].1.clone() {
            Evt::Sup { sig } => if w.live(self.main) { w.record(Rec::Signal { from: 0, to: self.main, sig, ok: true }); w.post_signal(self.main, sig); },
            Evt::KillTag { tag, sig } => {
                let t = format!("@{}", tag);
                let has = |v: &Vec<Vec<u8>>| v.iter().any(|s| String::from_utf8_lossy(s).split(['=', ' ']).any(|x| x == t));
                let p = w.procs.values().find(|p| p.state == PState::Live && matches!(p.role, Role::Script) && (has(&p.image.env) || has(&p.image.argv))).map(|p| p.pid);
                if let Some(p) = p { w.record(Rec::Signal { from: 0, to: p, sig, ok: true }); w.fault("proc:killed_from_outside"); w.post_signal(p, sig); }
            }
            Evt::Mark => if w.live(self.main) { let p = w.proc(self.main); let n = p.fds.values().filter(|e| matches!(w.of(e.of).kind, OKind::Conn(..))).count(); let x = (w.now, p.heap, n, w.procs.values().filter(|c| c.ppid == self.main && !matches!(c.state, PState::Reaped)).count(), p.fds.len() - n); w.marks.push(x); },
            Evt::WallJump { us } => { w.fault("clock:wall_jump"); w.wall0 += us * US as i64; let x = (w.now, w.wall0); w.walls.push(x); }
            e => if let Some(s) = self.server { if self.e2e { crate::e2e::event(w, s, &e) } else { crate::agentsrv::event(w, s, &e) } },
        }
    }
    fn any(&mut self) -> &mut dyn Any { self }
}

pub fn fd_kinds(w: &World, pid: Pid) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for e in w.proc(pid).fds.values() {
        let k = match &w.of(e.of).kind { OKind::PipeR(_) => "pipe-read", OKind::PipeW(_) => "pipe-write", OKind::Reg(_) => "file", OKind::Mem(_) | OKind::Null | OKind::Sink(_) => "std", OKind::Eventfd(_) => "eventfd", OKind::Epoll(_) => "epoll", OKind::Unix(..) => "socketpair", OKind::Listener(_) => "listener", OKind::Conn(..) => "connection", OKind::Sock(_) => "socket", OKind::PidFd(_) => "pidfd" };
        *m.entry(k.to_string()).or_insert(0) += 1;
    }
    m
}

pub fn run(plan: &Plan, paths: &Paths, trace: bool) -> RunOut {
    let mut w = World::new(plan.sched.clone(), plan.faults.clone());
    if trace { w.trace = Some(vec![]); }
    for e in ["/bin/prog", "/bin/other", "/bin/cat", "/sim/tool", "/alt/bin/prog", "/alt/sim/tool", "/alt/prog", "/alt/tool", "/bin/prog2", "/sim/tool2", "/bin/pro", "/sim/too", "/BIN/PROG", "/SIM/TOOL", "bin/prog", "sim/tool", "/bin/prog ", "/sim/tool "] { w.exes.insert(e.into(), ()); w.mkfile(e, b"\x7fELF", 0o755); }
    w.programs = plan.programs.clone();
    w.accept_errs = plan.accept_errs.iter().copied().collect();
    if plan.max_fds > 0 { w.max_fds = plan.max_fds; }
    w.reuse = plan.reuse_pids;
    for f in &plan.files {
        match f.kind.as_str() {
            "fifo" => w.mkfifo(&f.path),
            "dir" => { let i = w.mkfile(&f.path, b"", f.mode); w.inodes[i].is_dir = true; w.inodes[i].mode = 0o040000 | f.mode; }
            "exe" => { w.exes.insert(f.path.clone(), ()); w.mkfile(&f.path, b"\x7fELF", f.mode); }
            _ => { let i = w.mkfile(&f.path, f.data.as_bytes(), f.mode); w.inodes[i].limit = f.limit; w.inodes[i].write_err = f.write_err; }
        }
    }
    let h: SharedHist = Rc::new(RefCell::new(Hist::default()));
    w.hosts.insert("localhost".into(), 0x7f000001);
    w.hosts.insert("agents.example".into(), 0x0a000001);
    let mut args = plan.args.clone();
    let mut stdin = None;
    if let Some(i) = &plan.input {
        let d = serde_json::to_vec(i).unwrap();
        if plan.input_stdin { stdin = Some(d); args.push("-".into()); } else { w.mkfile("/sim/input.json", &d, 0o644); args.push("/sim/input.json".into()); }
    }
    let port = args.iter().position(|a| a == "--serve-port").and_then(|i| args.get(i + 1)).and_then(|p| p.parse().ok()).unwrap_or(3000u16);
    let mut env: Vec<(String, Vec<u8>)> = plan.env.iter().map(|(k, v)| (k.clone(), unhex(v))).collect();
    if !plan.env.contains_key("PATH") { env.push(("PATH".into(), b"/bin".to_vec())); }
    // Actors.
    let pyc = if plan.pyc { Some(crate::e2e::Pyc::new(paths, port)) } else { None };
    for b in crate::spec::bash() { w.exes.insert(b.into(), ()); if plan.pyc { w.mkfile(b, b"\x7fELF", 0o755); } }
    for (k, c) in plan.http.iter().enumerate() {
        let a = w.actors.len();
        w.actors.push(Some(Box::new(Client::new(format!("h{}", k), port, c, h.clone(), pyc.clone()))));
        w.at(T0 + c.start_us * US, Ev::Actor(a, 0));
    }
    let server = plan.server.as_ref().map(|s| crate::agentsrv::install(&mut w, s, h.clone(), &paths.certs, plan.sched.seed)).or_else(|| plan.e2e.as_ref().map(|s| crate::e2e::install(&mut w, s, h.clone(), paths, plan.sched.seed)));
    let main = w.spawn_main(&paths.bin, &paths.shim, &args, &env, stdin, &plan.extra_fds, 0);
    for (fd, n) in [(1, &plan.stdout), (2, &SinkPlan::default())] { let s = w.sink_of(main, fd); w.sinks[s].limit = n.limit; w.sinks[s].err = n.err; w.sinks[s].short = n.short; }
    let d = w.actors.len();
    w.actors.push(Some(Box::new(Director { events: plan.events.clone(), main, server, e2e: plan.e2e.is_some() })));
    for (k, (us, _)) in plan.events.iter().enumerate() { w.at(T0 + us * US, Ev::Actor(d, k as u64)); }

    w.run(T0 + plan.until_us * US);
    let done = |w: &mut World| w.actors.iter_mut().flatten().all(|x| x.any().downcast_ref::<Client>().map_or(true, |c| !c.observer || c.finished.is_some()));
    // A slow network: the observer gets the time it needs.
    for k in 1..20 { if done(&mut w) || !w.live(main) || w.step_limit_hit || w.hang.is_some() { break; } w.run(T0 + plan.until_us * US + k * 15 * SEC); }
    if let (Some(s), true) = (server, plan.e2e.is_some()) { crate::e2e::finish(&mut w, s); }
    if let Some(p) = &pyc { let mut p = p.borrow_mut(); h.borrow_mut().py_broken = p.broken.clone(); p.finish(); }
    let end = w.now;
    let obs_done = done(&mut w);
    let (o, e) = (w.sink_of(main, 1), w.sink_of(main, 2));
    let (stdout, stderr) = (w.sinks[o].data.clone(), w.sinks[e].data.clone());
    let base_fds = w.base_fds.clone();
    RunOut { w, h, main, end, stdout, stderr, base_fds, obs_done }
}
