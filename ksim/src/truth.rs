//! What really happened to each process the supervisor forked, rebuilt from the
//! simulated kernel's own records (never from what the supervisor says).
use crate::kernel::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct ExecInfo { pub t: Time, pub s: u64, pub path: String, pub argv: Vec<Vec<u8>>, pub env: Vec<Vec<u8>>, pub fds: BTreeMap<i32, FdDesc>, pub sid: Pid, pub ignored: u64, pub blocked: u64 }
#[derive(Clone, Debug)]
pub struct Inc {
    pub pid: Pid,
    pub parent: Pid,
    /// Index of the parent, if forked by a process that was itself forked.
    pub up: Option<usize>,
    pub t_fork: Time,
    pub s_fork: u64,
    pub exec: Option<ExecInfo>,
    pub exec_fail: Option<i32>,
    pub exit: Option<(Time, u64, i32)>,
    pub reap: Option<(Time, u64, Pid)>,
    /// (time, step, sender, signal)
    pub signals: Vec<(Time, u64, Pid, i32)>,
    pub tag: Option<String>,
    pub writes: Vec<(Time, u64, i32, FdWhat, Vec<u8>)>,
    pub reads: Vec<(Time, u64, i32, FdWhat, Vec<u8>)>,
    pub eofs: Vec<(Time, u64, i32, FdWhat)>,
    pub werrs: Vec<(Time, u64, i32, i32)>,
    /// The supervisor's own calls made by the child before exec.
    pub ran: Vec<&'static str>,
    /// What the supervisor read about it: (time, step, whether status, contents)
    pub procfiles: Vec<(Time, u64, bool, Vec<u8>)>,
}
#[derive(Default)]
pub struct Truth {
    pub incs: Vec<Inc>,
    pub by_tag: BTreeMap<String, Vec<usize>>,
    pub main_exit: Option<(Time, u64, i32)>,
    pub main: Pid,
    /// Signals by the supervisor to processes that were not there (or not its own).
    pub stray: Vec<(Time, u64, Pid, i32, bool)>,
    pub sup_signals: Vec<(Time, i32)>,
    pub fork_fails: Vec<(Time, u64)>,
    /// Reaps of foreign children: (time, pid)
    pub faults: Vec<String>,
    pub unknown: Vec<String>,
}
pub fn find_tag(e: &ExecInfo) -> Option<String> {
    for s in e.argv.iter().chain(e.env.iter()) {
        let s = String::from_utf8_lossy(s);
        if let Some(k) = s.find("@P") {
            let x: String = s[k + 2..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if !x.is_empty() { return Some(format!("P{}", x)); }
        }
    }
    None
}
impl Truth {
    pub fn new(w: &World, main: Pid) -> Truth {
        let mut t = Truth { main, ..Default::default() };
        let mut cur: BTreeMap<Pid, usize> = BTreeMap::new();
        for (tm, s, r) in &w.rec {
            match r {
                Rec::Fork { parent, pid } => {
                    let up = cur.get(parent).copied();
                    cur.insert(*pid, t.incs.len());
                    t.incs.push(Inc { pid: *pid, parent: *parent, up, t_fork: *tm, s_fork: *s, exec: None, exec_fail: None, exit: None, reap: None, signals: vec![], tag: None, writes: vec![], reads: vec![], eofs: vec![], werrs: vec![], ran: vec![], procfiles: vec![] });
                }
                Rec::ForkFail { .. } => t.fork_fails.push((*tm, *s)),
                Rec::Exec { pid, path, argv, env, fds, sid, ignored, blocked } => if let Some(&i) = cur.get(pid) {
                    let e = ExecInfo { t: *tm, s: *s, path: path.clone(), argv: argv.clone(), env: env.clone(), fds: fds.clone(), sid: *sid, ignored: *ignored, blocked: *blocked };
                    if let Some(tag) = find_tag(&e) { t.by_tag.entry(tag.clone()).or_default().push(i); t.incs[i].tag = Some(tag); }
                    t.incs[i].exec = Some(e);
                },
                Rec::ExecFail { pid, err } => if let Some(&i) = cur.get(pid) { t.incs[i].exec_fail = Some(*err); },
                Rec::Exit { pid, status, .. } => {
                    if *pid == main { t.main_exit = Some((*tm, *s, *status)); }
                    else if let Some(&i) = cur.get(pid) { t.incs[i].exit = Some((*tm, *s, *status)); }
                }
                Rec::Reap { pid, by, .. } => if let Some(&i) = cur.get(pid) { t.incs[i].reap = Some((*tm, *s, *by)); cur.remove(pid); },
                Rec::Signal { from, to, sig, ok } => {
                    if *to == main && *from != main { t.sup_signals.push((*tm, *sig)); }
                    match cur.get(to) { Some(&i) if t.incs[i].parent == main || *from != main => t.incs[i].signals.push((*tm, *s, *from, *sig)), _ => if *from == main { t.stray.push((*tm, *s, *to, *sig, *ok)); } }
                }
                Rec::Write { pid, fd, what, data } => if let Some(&i) = cur.get(pid) { t.incs[i].writes.push((*tm, *s, *fd, what.clone(), data.clone())); },
                Rec::WriteErr { pid, fd, err } => if let Some(&i) = cur.get(pid) { t.incs[i].werrs.push((*tm, *s, *fd, *err)); },
                Rec::ReadData { pid, fd, what, data } => if let Some(&i) = cur.get(pid) { t.incs[i].reads.push((*tm, *s, *fd, what.clone(), data.clone())); },
                Rec::ProcFile { by, pid, stat, data } => if *by == main { if let Some(&i) = cur.get(pid) { t.incs[i].procfiles.push((*tm, *s, *stat, data.clone())); } },
                Rec::ReadEof { pid, fd, what } => if let Some(&i) = cur.get(pid) { t.incs[i].eofs.push((*tm, *s, *fd, what.clone())); },
                Rec::ChildRuns { pid, op } => if let Some(&i) = cur.get(pid) { t.incs[i].ran.push(op); },
                Rec::Fault { what } => t.faults.push(what.clone()),
                Rec::Unknown { op } => t.unknown.push(op.clone()),
            }
        }
        t
    }
    /// Everything written to a pipe or file after its wiring, in order: (step, writer pid, data).
    pub fn written(&self, w: &World, what: &FdWhat) -> Vec<(Time, u64, Pid, Vec<u8>)> {
        let mut v = vec![];
        for (tm, s, r) in &w.rec {
            if let Rec::Write { pid, what: x, data, .. } = r {
                let same = match (x, what) { (FdWhat::PipeW(a), FdWhat::PipeW(b)) => a == b, (FdWhat::File { ino: a, .. }, FdWhat::File { ino: b, .. }) => a == b, _ => false };
                if same { v.push((*tm, *s, *pid, data.clone())); }
            }
        }
        v
    }
}
