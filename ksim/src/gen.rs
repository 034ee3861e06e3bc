//! Seeded generators: one seed is one plan (workload, schedule and faults).
use crate::kernel::*;
use crate::plan::*;
use crate::rng::*;
use crate::vm::*;
use libc::*;
use serde_json::{json, Map, Value};

pub struct G { pub r: Rng, n: u32, pub p: Plan, key: u64, file_ct: u32 }

/// What a generated process may be like.
#[derive(Clone, Copy)]
pub struct Prof {
    pub cap: f64, pub file: f64, pub weird: f64, pub env: f64, pub fail: f64,
    pub forever: f64, pub ignore: f64, pub kill: f64, pub grand: f64, pub big: usize, pub life_us: u64, pub comm: f64,
}
pub const BASE: Prof = Prof { cap: 0.5, file: 0.1, weird: 0.0, env: 0.1, fail: 0.0, forever: 0.1, ignore: 0.1, kill: 0.15, grand: 0.08, big: 20_000, life_us: 3_000_000, comm: 0.05 };

const WRITE_KINDS: [&str; 5] = ["ascii", "utf8", "bin", "lines", "bad8"];
const FATAL: [i32; 26] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31, 34, 50, 64];

impl G {
    pub fn new(prop: &str, seed: u64) -> G {
        let r = Rng::derive(hash_str(seed, prop), "gen");
        let mut p = Plan::default();
        p.prop = prop.into();
        p.seed = seed;
        p.args = vec!["--serve".into()];
        G { r, n: 0, p, key: 0, file_ct: 0 }
    }
    fn key(&mut self) -> u64 { self.key += 1; hash2(self.p.seed, self.key) }
    pub fn tag(&mut self) -> String { self.n += 1; format!("P{}", self.n) }
    pub fn us(&mut self, a: u64, b: u64) -> u64 { self.r.logu(a, b) }

    pub fn sched(&mut self) {
        let r = &mut self.r;
        let s = &mut self.p.sched;
        s.seed = r.next();
        s.base_us = *r.pick(&[2, 8, 8, 30, 200]);
        s.quantum_us = *r.pick(&[0, 0, 0, 100_000, 500_000]);
        if r.p(0.4) { s.stall_p = *r.pick(&[0.002, 0.01, 0.05]); s.stall_max_us = *r.pick(&[2_000, 30_000, 400_000]); s.calm_after = *r.pick(&[2_000, 20_000]); }
        if r.p(0.3) {
            let all = ["FORK", "READ", "WRITE", "EPOLL_WAIT", "WAIT4", "CLOSE", "EXECVE", "DUP3", "OPEN", "FCNTL", "FUTEX_WAKE", "FUTEX_WAIT", "SETSID", "PIPE2", "ACCEPT", "UNLINK"];
            let k = r.range(1, 3);
            for _ in 0..k { let x = r.pick(&all).to_string(); s.hot.push(x); }
            s.hot_p = *r.pick(&[0.05, 0.3, 0.8]);
            if s.stall_max_us < 2000 { s.stall_max_us = *r.pick(&[2_000, 30_000, 300_000]); }
            s.calm_after = *r.pick(&[2_000, 20_000]);
        }
        s.short_p = *r.pick(&[0.0, 0.0, 0.1, 0.5]);
        s.net_lat_us = *r.pick(&[10, 50, 50, 2_000, 40_000]);
        s.net_jit_us = *r.pick(&[0, 50, 1_000, 20_000]);
        s.frag_p = *r.pick(&[0.0, 0.0, 0.2, 0.8]);
        s.sock_cap = (*r.pick(&[65536, 65536, 4096, 300])).max((s.net_lat_us + s.net_jit_us) as usize / 4);
        s.pipe_cap = *r.pick(&[65536, 65536, 4096]);
    }
    /// What a process does, writing to these descriptors and reading from those.
    pub fn program(&mut self, pr: &Prof, wfds: &[i32], rfds: &[i32]) -> Program {
        let mut v = vec![];
        let (mut life, ends) = (self.r.logu(200, pr.life_us.max(300)), !self.r.p(pr.forever));
        if self.r.p(pr.comm) {
            let h = match self.r.below(4) { 0 => "61293a2928", 1 => "2920522031", 2 => "fffe61", _ => "5b6b5d20290a29" };
            v.push(if self.r.p(0.5) { POp::CommHex { hex: h.into() } } else { POp::Comm { name: self.r.pick(&["a) R (b", "x (y", ")", "tab\tname", "sp ace"]).to_string() } });
        }
        if self.r.p(pr.ignore) {
            let code = self.r.below(4) as i32;
            let us = *self.r.pick(&[0, 1000, 200_000, 3_000_000, 30_000_000, 80_000_000]);
            v.push(if self.r.p(0.5) { POp::Ignore { sig: SIGTERM } } else { POp::OnTerm { us, code } });
        }
        let mut acts: Vec<u8> = vec![];
        for _ in 0..self.r.range(0, 3) { acts.push(0); }
        if !wfds.is_empty() { for _ in 0..self.r.range(0, 4) { acts.push(1); } }
        if !rfds.is_empty() { for _ in 0..self.r.range(1, 2) { acts.push(2); } }
        if self.r.p(pr.grand) { acts.push(3); }
        self.r.shuffle(&mut acts);
        for a in acts {
            match a {
                0 => { let s = self.r.below(life + 1); life -= s; v.push(POp::Sleep { us: s }); }
                1 => {
                    let fd = *self.r.pick(wfds);
                    let n = match self.r.below(8) { 0 => 1, 1 => *self.r.pick(&[4095usize, 4096, 4097, 65535, 65536, 65537, 1024, 2048]), 2..=4 => self.r.logu(1, 300) as usize, _ => self.r.logu(1, pr.big.max(2) as u64) as usize };
                    let n = n.min(pr.big.max(300));
                    let chunk = if self.r.p(0.4) { 0 } else { (self.r.logu(1, n.max(2) as u64) as usize).max(n / 40 + 1) };
                    let gap_us = if self.r.p(0.3) { self.r.logu(1, 100_000) } else { 0 };
                    let kind = self.r.pick(&WRITE_KINDS).to_string();
                    let key = self.key();
                    v.push(POp::Write { fd, n, key, kind, chunk, gap_us });
                }
                2 => {
                    let fd = *self.r.pick(rfds);
                    v.push(match self.r.below(6) { 0 => POp::ReadN { fd, n: self.r.logu(1, 5000) as usize }, 1 => POp::Close { fd }, 2 if !wfds.is_empty() => POp::Cat { from: fd, to: *self.r.pick(wfds) }, _ => POp::ReadEof { fd } });
                }
                _ => {
                    let mut g = vec![];
                    let us = self.us(1000, pr.life_us);
                    g.push(POp::Sleep { us });
                    if !wfds.is_empty() && self.r.p(0.5) { let key = self.key(); let fd = *self.r.pick(wfds); let n = self.r.logu(1, 500) as usize; g.push(POp::Write { fd, n, key, kind: "lines".into(), chunk: 0, gap_us: 0 }); }
                    if self.r.p(0.3) { g.push(POp::Forever); }
                    v.push(POp::Fork { prog: Program(g) });
                }
            }
        }
        if !ends { v.push(POp::Forever); }
        else if self.r.p(pr.kill) { let sig = *self.r.pick(&FATAL); v.push(POp::KillSelf { sig }); }
        else { let code = match self.r.below(4) { 0 => self.r.below(256) as i32, 1 => *self.r.pick(&[63, 1, 255, 127]), _ => 0 }; v.push(POp::Exit { code }); }
        Program(v)
    }
    fn name(&mut self, fd: i32) -> String { match fd { 0 => "stdin".into(), 1 => "stdout".into(), 2 => "stderr".into(), f => if self.r.p(0.03) { format!("+{}", f) } else { f.to_string() } } }
    /// What a client may call a descriptor, mostly not one.
    pub fn fd_name(&mut self, common: &[&str]) -> String {
        if !self.r.p(0.12) { return self.r.pick(common).to_string(); }
        if self.r.p(0.3) { return self.r.pick(&["99999999999", "2147483648", "-2147483649", "+", "-", "", "0x1", "01", "+0", "-0", " 1", "1 ", "fd3", "STDOUT", "stdout ", "1.0", "1e0", "\u{663}"]).to_string(); }
        let mut n = String::new();
        for _ in 0..self.r.range(1, 5) { n.push_str(*self.r.pick(&["a", "f", "d", "s", "t", "0", "1", "9", "-", "+", "\u{e9}", "\u{65e5}", "\u{1d11e}", "\u{3000}", "\u{7f}", "\\", "\"", "\n"])); }
        n
    }
    pub fn capture(&mut self) -> Value {
        let mut m = Map::new();
        m.insert("mode".into(), json!(self.r.pick(&["memory", "tempfile"])));
        match self.r.below(4) { 0 => { m.insert("encoding".into(), Value::Null); } 1 | 2 => { m.insert("encoding".into(), json!("utf-8")); } _ => {} }
        if self.r.p(0.4) { m.insert("attached".into(), json!(self.r.p(0.3))); }
        json!({ "capture": m })
    }
    /// A spec with its program; `extra` is prepended to its descriptors.
    pub fn spec(&mut self, pr: &Prof, extra: Vec<(i32, Value)>, wpipes: &[i32], rpipes: &[i32]) -> (String, Value) {
        let tag = self.tag();
        let mut fds: Vec<(i32, Value)> = extra;
        let mut wf: Vec<i32> = wpipes.to_vec();
        let mut rf: Vec<i32> = rpipes.to_vec();
        let used = |fds: &Vec<(i32, Value)>, f: i32| fds.iter().any(|x| x.0 == f);
        for f in [1, 2] { if !used(&fds, f) { if self.r.p(pr.cap) { let c = self.capture(); fds.push((f, c)); wf.push(f); } else if self.r.p(0.3) { let k = self.r.below(3); fds.push((f, match k { 0 => json!({"null": {}}), 1 => json!("inherit"), _ => json!({"null": {"flags": "Write"}}) })); } } }
        if self.r.p(pr.cap * 0.3) { let f = self.r.range(3, 9) as i32; if !used(&fds, f) { let c = self.capture(); fds.push((f, c)); wf.push(f); } }
        if !used(&fds, 0) && self.r.p(0.2) { let k = self.r.below(3); fds.push((0, match k { 0 => json!({"null": {}}), 1 => json!("close"), _ => json!("inherit") })); }
        if self.r.p(pr.file) {
            let f = *self.r.pick(&[0, 1, 2, 3, 4, 7]);
            if !used(&fds, f) {
                let (v, r, w) = self.file(f);
                if r { rf.push(f); }
                if w { wf.push(f); }
                fds.push((f, v));
            }
        }
        if self.r.p(0.25) {
            let (a, b) = (self.r.range(1, 6) as i32, self.r.range(0, 6) as i32);
            if !used(&fds, a) && (b <= 2 || used(&fds, b)) && a != b && b != 0 { fds.push((a, json!({"dup": {"fd": b}}))); if wf.contains(&b) { wf.push(a); } }
        }
        if self.r.p(pr.weird) {
            let k = self.r.range(1, 5);
            for _ in 0..k {
                let f = match self.r.below(5) { 0 => self.r.range(0, 4) as i32, 1 | 2 => self.r.range(3, 16) as i32, 3 => self.r.range(10, 40) as i32, _ => self.r.range(40, 599) as i32 };
                if used(&fds, f) { continue; }
                let v = match self.r.below(8) {
                    0 => json!("close"), 1 => json!("inherit"), 2 => json!({"null": {"flags": self.r.pick(&["Read", "Write", "ReadWrite", "Append"])}}),
                    3 | 4 => { wf.push(f); self.capture() }
                    5 => { let t: Vec<i32> = fds.iter().filter(|x| x.1 != json!("close") && x.1 != json!("inherit")).map(|x| x.0).collect(); let d = if t.is_empty() || self.r.p(0.3) { *self.r.pick(&[1, 2]) } else { *self.r.pick(&t) }; if wf.contains(&d) { wf.push(f); } json!({"dup": {"fd": d}}) }
                    6 => { let (v, r, w) = self.file(f); if r { rf.push(f); } if w { wf.push(f); } v }
                    _ => json!({"dup": {"fd": self.r.range(3, 30)}}),
                };
                fds.push((f, v));
            }
            if self.r.p(0.5) { self.r.shuffle(&mut fds); }
        }
        // Standard output somewhere harmless unless given.
        wf.dedup();
        let prog = self.program(pr, &wf, &rf);
        self.p.programs.insert(tag.clone(), prog);
        let mut sp = Map::new();
        let mut argv = vec![json!(self.r.pick(&["/bin/prog", "/bin/prog", "/bin/other", "/sim/tool"]))];
        for _ in 0..self.r.below(4) { let a = self.r.pick(&["", "a", "-x", "two words", "é\u{1F600}", "\"q\"", "line\nbreak", "{}", "=", "%d\\"]).to_string(); argv.push(json!(a)); }
        if self.r.p(0.15) { sp.insert("exe".into(), json!(self.r.pick(&["/bin/prog", "/bin/cat", "/sim/tool"]))); if self.r.p(0.3) { argv[0] = json!("another name"); } if self.r.p(0.1) { argv.clear(); } }
        let mut vars = Map::new();
        if argv.is_empty() || self.r.p(0.5) { vars.insert("KTAG".into(), json!(format!("@{}", tag))); } else { argv.push(json!(format!("@{}", tag))); }
        sp.insert("argv".into(), json!(argv));
        let mut env = Map::new();
        if self.r.p(pr.env) {
            let inh = match self.r.below(5) { 0 => json!(true), 1 => json!(false), 2 => json!([]), 3 => { let mut v = vec![]; for _ in 0..self.r.below(4) { let n = self.r.pick(&["PATH", "A", "B", "UNI", "EMPTY", "MISSING", "PROCSTAR_AGENT_TOKEN", "PROCSTAR_AGENT_CERT", "PROCSTAR_AGENT_KEY", "PROCSTAR_AGENT_HOST", "RAW"]).to_string(); v.push(json!(n)); } json!(v) } _ => Value::Null };
            if !inh.is_null() { env.insert("inherit".into(), inh); }
            for _ in 0..self.r.below(4) {
                let k = self.r.pick(&["A", "B", "NEW", "PATH", "PROCSTAR_AGENT_TOKEN", "x y", "RAW", "EMPTY", "UNI"]).to_string();
                let v = match self.r.below(4) { 0 => Value::Null, 1 => json!(""), 2 => json!("a=b"), _ => json!("värde\n") };
                vars.insert(k, v);
            }
        }
        if !vars.is_empty() { env.insert("vars".into(), Value::Object(vars)); }
        if !env.is_empty() || self.r.p(0.2) { sp.insert("env".into(), Value::Object(env)); }
        let mut f = vec![];
        for (fd, v) in fds { let n = self.name(fd); f.push(json!([n, v])); }
        if !f.is_empty() || self.r.p(0.3) { sp.insert("fds".into(), json!(f)); }
        let mut sp = Value::Object(sp);
        if self.r.p(pr.fail) { self.break_spec(&mut sp); }
        (tag, sp)
    }
    /// (spec, readable, writable)
    fn file(&mut self, fd: i32) -> (Value, bool, bool) {
        self.file_ct += 1;
        let k = self.file_ct;
        let exists = self.r.p(0.5);
        let path = format!("/out/f{}", k);
        if exists { let mode = if self.r.p(0.1) { 0o444 } else { 0o644 }; let limit = if self.r.p(0.1) { Some(self.r.range(0, 2000)) } else { None }; self.p.files.push(FilePlan { path: path.clone(), data: "old contents of the file\n".repeat(self.r.range(0, 4) as usize), kind: "file".into(), mode, limit, write_err: None }); }
        let fl = *self.r.pick(&["Default", "Read", "Write", "Create", "Replace", "Append", "CreateAppend", "ReadWrite"]);
        // Mostly ones that can succeed.
        let fl = if self.r.p(0.7) { match fl { "Read" | "Replace" | "Append" if !exists => "Write", "Create" if exists => "Replace", f => f } } else { fl };
        let mut m = Map::new();
        m.insert("path".into(), json!(path));
        let f = crate::spec::oflags(&json!({"flags": fl}), fd);
        if fl != "Default" || self.r.p(0.3) { m.insert("flags".into(), json!(fl)); }
        if self.r.p(0.3) { m.insert("mode".into(), json!(*self.r.pick(&[0o600, 0o644, 0o666, 0o400]))); }
        let acc = f & O_ACCMODE;
        (json!({ "file": m }), acc != O_WRONLY, acc != O_RDONLY)
    }
    /// Makes the spec one that cannot be started.
    pub fn break_spec(&mut self, sp: &mut Value) {
        fn add(sp: &mut Value, fd: i32, v: Value) {
            if sp["fds"].is_null() { sp["fds"] = json!([]); }
            let n = crate::spec::fd_name(fd);
            let a = sp["fds"].as_array_mut().unwrap();
            a.retain(|x| x[0] != json!(n) && x[0] != json!(format!("+{}", n)));
            a.push(json!([n, v]));
        }
        match self.r.below(11) {
            0 if self.r.p(0.4) => { // Such that the reason is long, and cut anywhere.
                let mut p = "/".to_string();
                p.push_str(&"x".repeat(self.r.below(6) as usize));
                p.push_str(&self.r.pick(&["\u{e9}", "\u{65e5}", "\u{1d11e}", "z"]).repeat(*self.r.pick(&[100, 2_000, 17_000, 40_000])));
                sp["exe"] = json!(p);
            }
            0 | 1 => sp["exe"] = json!(self.r.pick(&["/bin/missing", "", "/bin", "prog", "/nodir/x", "/out"])),
            2 => { self.p.files.push(FilePlan { path: "/bin/noexec".into(), data: "x".into(), kind: "file".into(), mode: 0o644, ..Default::default() }); sp["exe"] = json!("/bin/noexec"); }
            3 => add(sp, 5, json!({"file": {"path": "/out/nosuch", "flags": "Read"}})),
            4 => add(sp, 1, json!({"file": {"path": "/nodir/x", "flags": "Write"}})),
            5 => { let d = self.r.range(50, 70); add(sp, 4, json!({"dup": {"fd": d}})) }
            6 => add(sp, 4, json!({"file": {"path": "/out", "flags": "Write"}})),
            7 => { self.p.files.push(FilePlan { path: "/out/excl".into(), data: "x".into(), kind: "file".into(), mode: 0o644, ..Default::default() }); add(sp, 6, json!({"file": {"path": "/out/excl", "flags": "Create"}})) }
            8 => add(sp, 100_000 + self.r.below(10) as i32, json!({"null": {}})),
            9 => add(sp, 700 + self.r.below(10) as i32, json!({"capture": {"mode": "memory"}})),
            _ => match self.r.below(4) { 0 => sp["exe"] = json!("/bin/pr\0og"), 1 => { if let Some(a) = sp["argv"].as_array_mut() { a.push(json!("nul\0arg")); } } 2 => { sp["env"]["vars"]["X\0"] = json!("v"); } _ => add(sp, 8, json!({"file": {"path": "/out/\0x", "flags": "Write"}})) },
        }
    }
    pub fn single(&mut self, pr: &Prof) -> Value { self.spec(pr, vec![], &[], &[]).1 }
    /// Several processes joined by pipes, in a chain or star.
    pub fn pipeline(&mut self, pr: &Prof, ids: &[String]) -> Value {
        let n = ids.len();
        let mut ex: Vec<Vec<(i32, Value)>> = vec![vec![]; n];
        let (mut wf, mut rf): (Vec<Vec<i32>>, Vec<Vec<i32>>) = (vec![vec![]; n], vec![vec![]; n]);
        let mut edges = vec![];
        for i in 1..n { edges.push((self.r.below(i as u64) as usize, i)); }
        if n > 1 && self.r.p(0.2) { let a = self.r.below(n as u64) as usize; let b = self.r.below(n as u64) as usize; edges.push((a, b)); }
        for (a, b) in edges {
            let (a, b) = if self.r.p(0.8) { (a, b) } else { (b, a) };
            let free = |g: &mut G, ex: &Vec<(i32, Value)>, pref: i32| { let mut f = if g.r.p(0.7) { pref } else { g.r.range(0, 12) as i32 }; while ex.iter().any(|x| x.0 == f) { f = g.r.range(0, 30) as i32; } f };
            let wfd = free(self, &ex[a], 1);
            ex[a].push((wfd, json!("pipe-write")));
            wf[a].push(wfd);
            let rfd = free(self, &ex[b], 0);
            ex[b].push((rfd, json!({"pipe-read": {"proc_id": ids[a], "fd": crate::spec::fd_name(wfd)}})));
            rf[b].push(rfd);
        }
        let mut m = Map::new();
        for i in 0..n { if self.r.p(0.3) { let e = &mut ex[i]; let mut x = std::mem::take(e); self.r.shuffle(&mut x); ex[i] = x; } let (_, sp) = self.spec(pr, ex[i].clone(), &wf[i].clone(), &rf[i].clone()); m.insert(ids[i].clone(), sp); }
        Value::Object(m)
    }
    /// A request's specs under fresh ids.
    pub fn request(&mut self, pr: &Prof, ids: &[String], pipes: f64) -> Value {
        if ids.len() > 1 && self.r.p(pipes) { return self.pipeline(pr, ids); }
        let mut m = Map::new();
        for i in ids { m.insert(i.clone(), self.single(pr)); }
        Value::Object(m)
    }
    pub fn ids(&mut self, pfx: &str, n: usize) -> Vec<String> { let x = self.r.below(1000); let mut v: Vec<String> = (0..n).map(|k| format!("{}{}", pfx, k)).collect(); if x < 300 { v.reverse(); }
        // Names that need quoting somewhere.
        if self.r.p(0.08) { let odd = *self.r.pick(&[" b", "/x", "/", "50%", "%41", "%2F", "é", "日本\u{1f600}", "?q=1", "#f", "+", "a&b", "..", "\"", "\\", "\n", "\0", "\u{7f}", "'", ":id", "*", ";", "%zz", "{p}", " "]); for i in &mut v { *i = if x % 2 == 0 { format!("{}{}", i, odd) } else { format!("{}{}", odd, i) }; } }
        v }
    pub fn client(&mut self, ops: Vec<ClientOp>) { let start_us = 60_000 + if self.r.p(0.5) { 0 } else { self.r.logu(1, 500_000) }; self.p.http.push(ClientPlan { start_us, ops, observer: false }); }
    pub fn at(&mut self, gap_us: u64, what: Do) -> ClientOp { ClientOp { gap_us, what, how: How::default() } }
    /// The client that looks at everything at the end.
    pub fn observer(&mut self, until_s: u64) {
        self.p.until_us = until_s * 1_000_000;
        let o = |gap_us: u64, what: Do| ClientOp { gap_us, what, how: How::default() };
        self.p.http.push(ClientPlan { start_us: (until_s - 15) * 1_000_000, observer: true, ops: vec![o(0, Do::List), o(0, Do::GetAll), o(0, Do::OutputAll), o(0, Do::DeleteAll), o(200_000, Do::List)] });
    }
    pub fn flag(&self, f: &str) -> bool { self.p.args.iter().any(|a| a == f) }
    fn gap(&mut self) -> u64 { match self.r.below(5) { 0 => 0, 1 => self.r.logu(1, 1000), 2 => self.r.logu(1, 50_000), _ => self.r.logu(1000, 2_000_000) } }
    /// Random read-only interest in some processes.
    pub fn watch(&mut self, ids: &[String], n: usize) -> Vec<ClientOp> {
        let mut v = vec![];
        for _ in 0..n {
            let id = self.r.pick(ids).clone();
            let g = self.gap();
            let what = match self.r.below(6) { 0 | 1 => Do::List, 2 | 3 => Do::Get { id }, 4 => Do::Output { id, fd: self.fd_name(&["stdout", "stderr", "3", "stdin"]), start: 0, stop: None }, _ => Do::WaitEnd { id, poll_us: 50_000, max: 20 } };
            v.push(self.at(g, what));
        }
        v
    }
    fn std_env(&mut self) {
        for (k, v) in [("A", "1"), ("B", "two words"), ("EMPTY", ""), ("UNI", "ünï"), ("PROCSTAR_AGENT_TOKEN", "s3cret"), ("PROCSTAR_AGENT_CERT", "cert"), ("PROCSTAR_AGENT_KEY", "key"), ("PROCSTAR_AGENT_HOST", "agents.example")] { self.p.env.insert(k.into(), v.into()); }
    }
}

pub const HTTP_PROPS: [&str; 14] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C22"];

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut g = G::new(prop, seed);
    g.sched();
    match prop {
        "C01" => c01(&mut g), "C02" => c02(&mut g), "C03" => c03(&mut g), "C04" => c04(&mut g), "C05" => c05(&mut g), "C06" => c06(&mut g), "C07" => c07(&mut g),
        "C08" => c08(&mut g), "C09" => c09(&mut g), "C10" => c10(&mut g), "C11" => c11(&mut g), "C12" => c12(&mut g), "C13" => c13(&mut g), "C22" => c22(&mut g), "C14" => c14(&mut g), "C15" => c15(&mut g), "C16" => c16(&mut g), "C17" => c17(&mut g), "C21" => c21(&mut g), "C23" => c23(&mut g), "C24" => c24(&mut g),
        _ => { eprintln!("no generator for {}", prop); std::process::exit(2) }
    }
    g.p
}
fn starter(g: &mut G, pr: &Prof, pfx: &str, reqs: usize, per: usize, pipes: f64, watch: usize) -> Vec<String> {
    let mut all = vec![];
    let mut ops = vec![];
    for k in 0..reqs {
        let n = g.r.range(1, per as u64) as usize;
        let ids = g.ids(&format!("{}{}-", pfx, k), n);
        let specs = g.request(pr, &ids, pipes);
        let gp = g.gap();
        ops.push(g.at(gp, Do::Start { specs }));
        all.extend(ids.clone());
        if watch > 0 { let w = g.watch(&all.clone(), watch); ops.extend(w); }
    }
    g.client(ops);
    all
}
/// Many records at once: trivial processes, started in a few large requests.
fn crowd(g: &mut G, pfx: &str) -> Vec<String> {
    let mut pr = BASE;
    pr.cap = 0.15; pr.file = 0.0; pr.env = 0.0; pr.grand = 0.0; pr.comm = 0.0; pr.big = 100; pr.life_us = 300_000; pr.forever = 0.04; pr.fail = 0.05; pr.ignore = 0.0;
    g.p.sched.stall_p = g.p.sched.stall_p.min(0.002);
    g.p.sched.hot.clear();
    let mut ops = vec![];
    let mut all = vec![];
    for k in 0..g.r.range(2, 5) {
        let n = g.r.range(8, 36) as usize;
        let ids = g.ids(&format!("{}{}-", pfx, k), n);
        let specs = g.request(&pr, &ids, 0.0);
        let gp = g.gap();
        ops.push(g.at(gp, Do::Start { specs }));
        ops.push(g.at(0, Do::List));
        if g.r.p(0.3) { let id = g.r.pick(&ids).clone(); ops.push(g.at(gp, Do::Delete { id })); }
        all.extend(ids);
    }
    g.client(ops);
    all
}
fn c01(g: &mut G) {
    let mut pr = BASE;
    pr.comm = 0.2; pr.kill = 0.4; pr.life_us = 6_000_000; pr.forever = 0.1;
    if g.r.p(0.3) { pr.fail = 0.1; }
    let burst = g.r.p(0.25);
    let (reqs, per) = if burst { (1, 14) } else { (3, 4) };
    if g.r.p(0.4) { g.p.reuse_pids = true; }
    let nw = g.r.range(1, 6) as usize;
    let ids = starter(g, &pr, "a", reqs, per, 0.3, nw);
    if g.r.p(0.5) { let ids2 = starter(g, &pr, "b", 2, 3, 0.3, 3); let w = g.watch(&ids2, 4); g.client(w); }
    let w = g.watch(&ids, 8);
    g.client(w);
    if g.r.p(0.015) { crowd(g, "m"); }
    let tags: Vec<String> = g.p.programs.keys().cloned().collect();
    for t in tags { if g.r.p(0.25) { let us = g.r.range(100_000, 8_000_000); let sig = *g.r.pick(&FATAL); g.p.events.push((us, Evt::KillTag { tag: t, sig })); } }
    if g.r.p(0.15) { let us = g.r.range(100_000, 5_000_000); let j = *g.r.pick(&[-3_600_000_000i64, 86_400_000_000, 5_000_000]); g.p.events.push((us, Evt::WallJump { us: j })); }
    if g.r.p(0.15) { let e = *g.r.pick(&[ENOENT, EMFILE, ESRCH, EACCES]); let nth = g.r.below(6) as u32; let count = g.r.range(1, 4) as u32; g.p.faults.push(Fault { who: "main".into(), op: g.r.pick(&["OPENPROC", "READPROC"]).to_string(), nth, count, errno: e }); }
    g.observer(40);
}
/// What is told of processes besides their states.
fn c23(g: &mut G) {
    let mut pr = BASE;
    pr.comm = 0.3; pr.kill = 0.3; pr.life_us = 6_000_000; pr.forever = 0.15; pr.ignore = 0.3; pr.fail = *g.r.pick(&[0.0, 0.1, 0.3]); pr.big = 300; pr.grand = 0.1;
    g.p.reuse_pids = g.r.p(0.6);
    let reqs = g.r.range(1, 3) as usize;
    let mut ids = starter(g, &pr, "a", reqs, 4, 0.2, 3);
    if g.r.p(0.6) { let ids2 = starter(g, &pr, "b", 3, 3, 0.2, 2); ids.extend(ids2); }
    let w = g.watch(&ids, 8);
    g.client(w);
    let tags: Vec<String> = g.p.programs.keys().cloned().collect();
    for t in tags { if g.r.p(0.2) { let us = g.r.range(100_000, 8_000_000); let sig = *g.r.pick(&FATAL); g.p.events.push((us, Evt::KillTag { tag: t, sig })); } }
    for _ in 0..*g.r.pick(&[0, 0, 1, 1, 2, 5]) { let us = g.us(1000, 8_000_000); let j = *g.r.pick(&[-3_600_000_000i64, 86_400_000_000, 5_000_000, -5_000_000, 40_000_000_000_000, -20_000_000_000_000]); g.p.events.push((us, Evt::WallJump { us: j })); }
    if g.r.p(0.35) { let e = *g.r.pick(&[ENOENT, EMFILE, ESRCH, EACCES]); let nth = g.r.below(10) as u32; let count = g.r.range(1, 4) as u32; g.p.faults.push(Fault { who: "main".into(), op: g.r.pick(&["OPENPROC", "OPENPROC", "READPROC"]).to_string(), nth, count, errno: e }); }
    if g.r.p(0.3) { agent_too(g, 12_000_000, false); let o = observe(g, 3_000_000); g.p.server.as_mut().unwrap().final_script = o; }
    g.observer(40);
}
fn c02(g: &mut G) {
    let mut pr = BASE;
    pr.cap = 0.95; pr.big = *g.r.pick(&[2_000, 20_000, 150_000]); pr.kill = 0.1; pr.grand = 0.15; pr.forever = 0.15; pr.life_us = 2_000_000;
    let ids = starter(g, &pr, "a", 2, 3, 0.1, 4);
    for _ in 0..g.r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..g.r.range(2, 12) {
            let id = g.r.pick(&ids).clone();
            let gp = g.gap() / 4;
            let fd = g.r.pick(&["stdout", "stderr", "stdout", "stderr", "3", "4", "5", "1"]).to_string();
            let what = if g.r.p(0.7) { Do::Output { id, fd, start: 0, stop: None } } else { Do::Get { id } };
            let mut o = g.at(gp, what);
            if g.r.p(0.1) { o.how.slow_read_us = g.r.logu(1000, 2_000_000); }
            ops.push(o);
        }
        g.client(ops);
    }
    g.observer(40);
}
fn c03(g: &mut G) {
    let mut pr = BASE;
    pr.weird = 0.8; pr.file = 0.3; pr.cap = 0.4; pr.forever = 0.25; pr.big = 500; pr.grand = 0.02;
    if g.r.p(0.3) { let f = g.r.range(3, 12) as i32; let ce = g.r.p(0.3); g.p.extra_fds.push((f, ce)); if g.r.p(0.3) { let f2 = g.r.range(13, 30) as i32; g.p.extra_fds.push((f2, ce)); } }
    // Connections held open meanwhile.
    for _ in 0..g.r.below(3) { let mut o = g.at(0, Do::List); o.how.leave_open = true; let start_us = 55_000; g.p.http.push(ClientPlan { start_us, ops: vec![o], observer: false }); }
    starter(g, &pr, "a", 3, 3, 0.4, 2);
    if g.r.p(0.6) { starter(g, &pr, "b", 3, 3, 0.4, 1); }
    g.observer(35);
}
fn c04(g: &mut G) {
    let mut pr = BASE;
    pr.env = 0.9; pr.big = 300; pr.fail = 0.05;
    g.std_env();
    if g.r.p(0.15) { g.p.env.insert("RAW".into(), "hex:fffe41".into()); }
    if g.r.p(0.4) { let x = g.r.pick(&["/bin/prog", "/sim/tool", "/bin/none"]).to_string(); g.p.args.extend(["--restrict-exe".to_string(), x]); }
    let ids = starter(g, &pr, "a", 3, 3, 0.2, 2);
    if g.r.p(0.3) { let inp: Vec<String> = g.ids("i", 2); let s = g.request(&pr, &inp, 0.2); g.p.input = Some(json!({ "specs": s })); g.p.input_stdin = g.r.p(0.3); }
    if let Some(k) = g.p.args.iter().position(|a| a == "--restrict-exe") {
        // Others that look like it.
        let x = g.p.args[k + 1].clone();
        let base = x.rsplit('/').next().unwrap().to_string();
        let like = vec![format!("/alt{}", x), format!("{}2", x), x[..x.len() - 1].to_string(), x.to_uppercase(), format!("/alt/{}", base), x[1..].to_string(), format!("{} ", x), format!("{}/{}", x, base)];
        let pct = *g.r.pick(&[0.0, 0.2, 0.5]);
        let mut clients = std::mem::take(&mut g.p.http);
        for o in clients.iter_mut().flat_map(|c| c.ops.iter_mut()) { if let Do::Start { specs } = &mut o.what { lookalikes(g, specs, &like, &x, pct); } }
        g.p.http = clients;
        if let Some(mut i) = g.p.input.take() { lookalikes(g, &mut i["specs"], &like, &x, pct); g.p.input = Some(i); }
    }
    let w = g.watch(&ids, 2);
    g.client(w);
    g.observer(35);
}
fn lookalikes(g: &mut G, specs: &mut Value, like: &[String], x: &str, pct: f64) {
    let Some(m) = specs.as_object_mut() else { return };
    for sp in m.values_mut() {
        if !g.r.p(pct) { continue; }
        let e = if g.r.p(0.3) { x.to_string() } else { g.r.pick(like).clone() };
        if sp.get("exe").map_or(false, |v| v.is_string()) || g.r.p(0.2) { sp["exe"] = json!(e); }
        else if sp["argv"].as_array().map_or(false, |a| !a.is_empty()) { sp["argv"][0] = json!(e); }
    }
}
fn c05(g: &mut G) {
    let mut pr = BASE;
    pr.big = *g.r.pick(&[300, 20_000, 200_000]); pr.cap = 0.2; pr.grand = 0.1; pr.forever = 0.15; pr.kill = 0.15; pr.fail = if g.r.p(0.3) { 0.25 } else { 0.0 }; pr.life_us = 2_000_000;
    if g.r.p(0.2) { pr.weird = 0.4; }
    let n = g.r.range(1, 3) as usize;
    starter(g, &pr, "a", n, 5, 0.95, 1);
    if g.r.p(0.6) { let mut q = pr; q.forever = 0.4; starter(g, &q, "b", 3, 3, 0.5, 1); }
    g.observer(45);
}
fn c06(g: &mut G) {
    let mut pr = BASE;
    pr.fail = 0.5; pr.big = 1000; pr.cap = 0.5; pr.weird = 0.2; pr.forever = 0.2;
    let ids = starter(g, &pr, "a", 4, 3, 0.35, 3);
    let w = g.watch(&ids, 6);
    g.client(w);
    if g.r.p(0.5) {
        let k = g.r.range(1, 3);
        for _ in 0..k {
            let child = g.r.p(0.55);
            let nth = g.r.below(8) as u32;
            let f = if child {
                let op = g.r.pick(&["EXECVE", "OPEN", "DUP3", "FCNTL", "SETSID", "EXECVE"]).to_string();
                let errno = match op.as_str() { "EXECVE" => *g.r.pick(&[ENOMEM, E2BIG, ENOEXEC, EACCES, EAGAIN, ETXTBSY, EIO, ELOOP]), "OPEN" => *g.r.pick(&[EMFILE, ENFILE, EACCES, ENOSPC, EINTR, EROFS]), "DUP3" => *g.r.pick(&[EBADF, EMFILE, EINTR, EBUSY]), "SETSID" => EPERM, _ => EMFILE };
                let nth = if op == "EXECVE" || op == "SETSID" { 0 } else { g.r.below(3) as u32 };
                Fault { who: format!("child{}", g.r.below(7)), op, nth, count: g.r.range(1, 2) as u32, errno }
            } else {
                let op = g.r.pick(&["FORK", "PIPE2", "MKSTEMP", "FORK", "UNLINK"]).to_string();
                let errno = match op.as_str() { "FORK" => *g.r.pick(&[EAGAIN, ENOMEM]), "PIPE2" => *g.r.pick(&[EMFILE, ENFILE]), "MKSTEMP" => *g.r.pick(&[EMFILE, ENOSPC, EACCES, EROFS]), "UNLINK" => EACCES, _ => EMFILE };
                Fault { who: "main".into(), op, nth, count: g.r.range(1, 3) as u32, errno }
            };
            g.p.faults.push(f);
        }
    } else if g.r.p(0.2) { g.p.max_fds = g.r.range(24, 40) as i32; }
    g.observer(35);
}
fn bad_request(g: &mut G, pr: &Prof, ids: &[String]) -> Value {
    let mut v = g.request(pr, ids, 0.5);
    let id = g.r.pick(ids).clone();
    let sp = &mut v[&id];
    if sp["fds"].is_null() { sp["fds"] = json!([]); }
    let k = g.r.below(9);
    let a = sp["fds"].as_array_mut().unwrap();
    match k {
        0 => { a.push(json!(["9", {"null": {}}])); a.push(json!(["9", "close"])); }
        1 => { a.push(json!(["1", "close"])); a.push(json!(["stdout", "inherit"])); }
        2 => a.push(json!(["15", "pipe-write"])),
        3 => a.push(json!(["15", {"pipe-read": {"proc_id": id, "fd": "14"}}])),
        4 => a.push(json!(["15", {"pipe-read": {"proc_id": "nobody", "fd": "1"}}])),
        5 => { let n = if g.r.p(0.5) { "stdoutx".to_string() } else { loop { let n = g.fd_name(&["fd3", "x"]); if crate::spec::fd_num(&n).is_none() { break n; } } }; a.push(json!([n, "close"])) }
        6 => sp["bogus"] = json!(1),
        7 => { sp["exe"] = Value::Null; sp["argv"] = json!([]); if sp["env"].is_null() { sp["env"] = json!({}); } }
        _ => a.push(json!(["8", {"bogus": {}}])),
    }
    v
}
fn c07(g: &mut G) {
    let mut pr = BASE;
    pr.big = 300; pr.life_us = 800_000; pr.cap = 0.3; pr.fail = 0.1;
    let names = ["a", "b", "c", "d", "e", "f"];
    for _ in 0..g.r.range(2, 4) {
        let mut ops = vec![];
        for _ in 0..g.r.range(2, 5) {
            let n = g.r.range(1, 3);
            let mut ids: Vec<String> = vec![];
            for _ in 0..n { let x = g.r.pick(&names).to_string(); if !ids.contains(&x) { ids.push(x); } }
            let gp = g.gap();
            let op = match g.r.below(10) {
                0..=4 => { let specs = g.request(&pr, &ids, 0.4); Do::Start { specs } }
                5 | 6 => { let specs = bad_request(g, &pr, &ids); Do::Start { specs } }
                7 => Do::Delete { id: ids[0].clone() },
                8 => Do::Get { id: ids[0].clone() },
                _ => Do::List,
            };
            ops.push(g.at(gp, op));
            if g.r.p(0.4) { ops.push(g.at(0, Do::List)); }
        }
        g.client(ops);
    }
    if g.r.p(0.2) { let us = g.r.range(50_000, 4_000_000); g.p.events.push((us, Evt::Sup { sig: SIGUSR1 })); }
    if g.r.p(0.1) { let k = g.p.http.len(); let _ = k; g.p.reuse_pids = true; }
    g.observer(35);
}
const SIGS: [&str; 22] = ["SIGTERM", "SIGKILL", "SIGINT", "SIGHUP", "SIGUSR1", "SIGUSR2", "SIGSTOP", "SIGCONT", "SIGCHLD", "15", "9", "1", "12", "64", "34", "16", "SIGWINCH", "SIGQUIT", "10", "SIGSEGV", "SIGPIPE", "18"];
const BADSIGS: [&str; 12] = ["0", "65", "-1", "-9", "SIGFOO", "TERM", "sigterm", "1000", "99999999999", "1.5", "SIGRTMAX1", "+"];
fn c08(g: &mut G) {
    let mut pr = BASE;
    pr.big = 200; pr.life_us = 3_000_000; pr.forever = 0.35; pr.fail = 0.2; pr.kill = 0.1; pr.ignore = 0.25;
    g.p.reuse_pids = g.r.p(0.8);
    let ids = starter(g, &pr, "a", 3, 3, 0.2, 1);
    for _ in 0..g.r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..g.r.range(3, 10) {
            let id = if g.r.p(0.08) { "nobody".to_string() } else { g.r.pick(&ids).clone() };
            let gp = g.gap();
            let sig = if g.r.p(0.2) { g.r.pick(&BADSIGS).to_string() } else { g.r.pick(&SIGS).to_string() };
            let op = match g.r.below(8) { 0 => Do::Get { id }, 1 => Do::Delete { id }, 2 => Do::WaitEnd { id, poll_us: 20_000, max: 10 }, _ => Do::Signal { id, sig } };
            ops.push(g.at(gp, op));
        }
        g.client(ops);
    }
    // More processes to take the ids that became free.
    starter(g, &pr, "z", 4, 3, 0.2, 0);
    let tags: Vec<String> = g.p.programs.keys().cloned().collect();
    for t in tags { if g.r.p(0.15) { let us = g.r.range(100_000, 4_000_000); g.p.events.push((us, Evt::KillTag { tag: t, sig: 9 })); } }
    if g.r.p(0.1) { let nth = g.r.below(3) as u32; g.p.faults.push(Fault { who: "main".into(), op: "KILL".into(), nth, count: 1, errno: EPERM }); }
    g.observer(35);
}
fn c09(g: &mut G) {
    let mut pr = BASE;
    pr.big = 500; pr.life_us = 600_000; pr.forever = 0.15; pr.fail = 0.15; pr.ignore = 0.05; pr.cap = 0.4;
    g.p.reuse_pids = g.r.p(0.5);
    let names = ["a", "b", "c", "d"];
    for _ in 0..g.r.range(2, 4) {
        let mut ops = vec![];
        for _ in 0..g.r.range(3, 8) {
            let id = g.r.pick(&names).to_string();
            let gp = g.gap() / 2;
            let op = match g.r.below(12) {
                0..=3 => { let mut ids = vec![id]; if g.r.p(0.3) { let x = g.r.pick(&names).to_string(); if !ids.contains(&x) { ids.push(x); } } let specs = g.request(&pr, &ids, 0.3); Do::Start { specs } }
                4..=7 => Do::Delete { id },
                8 => Do::Get { id },
                9 => Do::Output { id, fd: "stdout".into(), start: 0, stop: None },
                10 => Do::WaitEnd { id, poll_us: 20_000, max: 15 },
                _ => Do::List,
            };
            let mut o = g.at(gp, op);
            if g.r.p(0.04) { o.how.abandon_us = Some(g.r.logu(1, 20_000)); o.how.rst = g.r.p(0.5); }
            ops.push(o);
        }
        g.client(ops);
    }
    if g.r.p(0.03) { crowd(g, "m"); }
    g.observer(35);
}
fn c10(g: &mut G) {
    let mut pr = BASE;
    pr.forever = 0.5; pr.ignore = 0.45; pr.big = 2000; pr.life_us = 20_000_000; pr.grand = 0.1; pr.fail = 0.05;
    let ids = starter(g, &pr, "a", 3, 4, 0.3, 2);
    if g.r.p(0.2) { let inp: Vec<String> = g.ids("i", 2); let s = g.request(&pr, &inp, 0.2); g.p.input = Some(json!({ "specs": s })); }
    let mut t = if g.r.p(0.3) { g.us(1000, 3_000_000) } else { g.r.range(100_000, 6_000_000) };
    let sig = *g.r.pick(&[SIGTERM, SIGTERM, SIGINT, SIGQUIT]);
    if g.r.p(0.15) { g.p.events.push((t, Evt::Sup { sig: SIGUSR1 })); t += g.us(1000, 5_000_000); }
    g.p.events.push((t, Evt::Sup { sig }));
    if g.r.p(0.35) { let d = g.us(100, 70_000_000); let s2 = *g.r.pick(&[SIGTERM, SIGQUIT, SIGINT, SIGUSR1, SIGUSR1]); g.p.events.push((t + d, Evt::Sup { sig: s2 })); }
    // Clients carry on meanwhile.
    for _ in 0..g.r.range(1, 2) {
        let mut ops = vec![];
        for _ in 0..g.r.range(2, 10) {
            let id = g.r.pick(&ids).clone();
            let gp = g.us(1000, 15_000_000);
            let op = match g.r.below(8) { 0..=2 => Do::List, 3 => Do::Get { id }, 4 | 5 => Do::Delete { id }, 6 => Do::Output { id, fd: "stdout".into(), start: 0, stop: None }, _ => Do::Signal { id, sig: g.r.pick(&["SIGTERM", "SIGUSR2", "SIGKILL"]).to_string() } };
            ops.push(g.at(gp, op));
        }
        if g.r.p(0.15) { ops.push(g.at(100, Do::List)); let i = g.ids("late", 1); let s = g.request(&pr, &i, 0.0); let gp = g.us(1000, 10_000_000); ops.push(g.at(gp, Do::Start { specs: s })); }
        if g.r.p(0.4) { for _ in 0..3 { let gp = g.us(100_000, 10_000_000); ops.push(g.at(gp, Do::List)); ops.push(g.at(0, Do::DeleteAll)); } }
        g.client(ops);
    }
    if g.r.p(0.2) { let mut o = g.at(0, Do::List); o.how.leave_open = true; g.client(vec![o]); }
    if g.r.p(0.12) { let nth = g.r.below(3) as u32; g.p.faults.push(Fault { who: "main".into(), op: "KILL".into(), nth, count: 1, errno: EPERM }); }
    if g.r.p(0.02) { crowd(g, "m"); }
    else if g.r.p(0.25) { let d = g.r.p(0.5); agent_too(g, t + 65_000_000, d); }
    g.p.until_us = 110_000_000;
}
fn c11(g: &mut G) {
    let mut pr = BASE;
    pr.forever = 0.08; pr.ignore = 0.05; pr.big = 500; pr.life_us = 4_000_000; pr.fail = 0.1;
    if g.r.p(0.85) { let reqs = g.r.range(1, 2) as usize; starter(g, &pr, "a", reqs, 2, 0.2, 1); }
    let t = match g.r.below(4) { 0 => g.us(1000, 200_000), 1 => g.r.range(55_000, 80_000), _ => g.r.range(60_000, 6_000_000) };
    g.p.events.push((t, Evt::Sup { sig: SIGUSR1 }));
    if g.r.p(0.2) { let d = g.us(10, 3_000_000); g.p.events.push((t + d, Evt::Sup { sig: SIGUSR1 })); }
    if g.r.p(0.08) { let d = g.us(10, 20_000_000); let s = *g.r.pick(&[SIGTERM, SIGQUIT]); g.p.events.push((t + d, Evt::Sup { sig: s })); }
    // Starts after it.
    let mut ops = vec![];
    for k in 0..g.r.below(4) { let i = g.ids(&format!("n{}", k), 1); let s = g.request(&pr, &i, 0.0); let gp = g.us(1000, 3_000_000); ops.push(g.at(gp, Do::Start { specs: s })); }
    if !ops.is_empty() { g.client(ops); }
    for _ in 0..g.r.range(1, 2) {
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 8) { let gp = g.us(10_000, 4_000_000); ops.push(g.at(gp, Do::List)); ops.push(g.at(0, Do::DeleteAll)); if g.r.p(0.3) { ops.push(g.at(0, Do::GetAll)); } }
        g.client(ops);
    }
    if g.r.p(0.7) { g.p.http.push(ClientPlan { start_us: 25_000_000, observer: false, ops: vec![ClientOp { gap_us: 0, what: Do::List, how: How::default() }, ClientOp { gap_us: 0, what: Do::DeleteAll, how: How::default() }] }); }
    g.p.until_us = 45_000_000;
    if g.r.p(0.25) { let d = g.r.p(0.7); agent_too(g, t + 20_000_000, d); }
}
fn c12(g: &mut G) {
    let mut pr = BASE;
    pr.cap = 0.85; pr.big = *g.r.pick(&[1_000, 30_000, 120_000]); pr.forever = 0.0; pr.fail = 0.15; pr.grand = 0.15; pr.life_us = 3_000_000; pr.ignore = 0.0;
    g.p.args.clear();
    let wait = g.r.p(0.1);
    match g.r.below(4) {
        _ if wait => { g.p.args = vec!["--wait".into(), "--serve".into()]; }
        0 => g.p.args = vec!["--print".into()],
        1 => g.p.args = vec!["--output".into(), "/out/res.json".into()],
        2 => g.p.args = vec!["--exit".into()],
        _ => g.p.args = vec!["--print".into(), "--output".into(), "/out/res.json".into()],
    }
    let serve = !wait && g.r.p(0.25);
    if serve { g.p.args.push("--serve".into()); }
    let n = g.r.range(0, 4) as usize;
    let ids = g.ids("p", n);
    let specs = if n == 0 { json!({}) } else { g.request(&pr, &ids, 0.4) };
    g.p.input = Some(json!({ "specs": specs }));
    g.p.input_stdin = g.r.p(0.2);
    if g.r.p(0.05) && n > 0 { let s = bad_request(g, &pr, &ids); g.p.input = Some(json!({ "specs": s })); }
    match g.r.below(8) {
        0 => g.p.stdout = SinkPlan { limit: Some(g.r.logu(1, 5000)), err: Some(*g.r.pick(&[ENOSPC, EPIPE, EIO])), short: g.r.p(0.5) },
        1 => g.p.stdout = SinkPlan { limit: None, err: None, short: true },
        2 => { let l = g.r.logu(1, 5000); g.p.files.push(FilePlan { path: "/out/res.json".into(), data: "previous".into(), kind: "file".into(), mode: 0o644, limit: Some(l), write_err: if g.r.p(0.5) { Some(EIO) } else { None } }); }
        3 => { g.p.files.push(FilePlan { path: "/out/res.json".into(), data: "x".repeat(20000), kind: "file".into(), mode: if g.r.p(0.7) { 0o644 } else { 0o444 }, limit: None, write_err: None }); }
        4 => { let nth = g.r.below(3) as u32; let e = *g.r.pick(&[ENOSPC, EIO, EDQUOT, EINTR]); let op = g.r.pick(&["WRITEFILE", "WRITESINK", "WRITESINK"]).to_string(); g.p.faults.push(Fault { who: "main".into(), op, nth, count: if e == EINTR { 1 } else { 100000 }, errno: e }); }
        _ => {}
    }
    if let Some(i) = g.p.args.iter().position(|a| a == "/out/res.json") { if g.r.p(0.05) { g.p.args[i] = g.r.pick(&["/nodir/res.json", "/out", "/out/sub/x"]).to_string(); } }
    if wait {
        let ops = vec![]; let mut ops: Vec<ClientOp> = ops;
        for _ in 0..g.r.range(2, 6) { let gp = g.us(100_000, 2_000_000); ops.push(g.at(gp, Do::List)); ops.push(g.at(0, Do::DeleteAll)); }
        if g.r.p(0.5) { let i = g.ids("w", 1); let s = g.request(&pr, &i, 0.0); ops.insert(0, ClientOp { gap_us: 0, what: Do::Start { specs: s }, how: How::default() }); }
        g.client(ops);
        g.p.http.push(ClientPlan { start_us: 20_000_000, observer: false, ops: vec![ClientOp { gap_us: 0, what: Do::List, how: How::default() }, ClientOp { gap_us: 0, what: Do::DeleteAll, how: How::default() }] });
    }
    if serve && g.r.p(0.8) {
        // More to do while it runs.
        let mut ops = vec![];
        for k in 0..g.r.range(1, 5) { let gp = g.us(20_000, 2_500_000); let i = g.ids(&format!("h{}x", k), 2); let s = g.request(&pr, &i, 0.3); ops.push(g.at(gp, Do::Start { specs: s })); if g.r.p(0.3) { ops.push(g.at(0, Do::List)); } }
        g.client(ops);
    }
    g.p.until_us = 40_000_000;
}
fn raw(g: &mut G) -> (String, u16) {
    let h = "host: sim\r\n";
    let v: Vec<(String, u16)> = vec![
        ("GET / HTTP/1.1\r\nhost: sim\r\n\r\n".into(), 404), (format!("GET /nothing HTTP/1.1\r\n{}\r\n", h), 404), (format!("PUT /procs HTTP/1.1\r\n{}content-length: 0\r\n\r\n", h), 405),
        (format!("PATCH /procs/a HTTP/1.1\r\n{}content-length: 0\r\n\r\n", h), 405), (format!("POST /procs HTTP/1.1\r\n{}content-type: application/json\r\ncontent-length: 5\r\n\r\n{{\"a\":", h), 400),
        (format!("POST /procs HTTP/1.1\r\n{}content-type: text/plain\r\ncontent-length: 2\r\n\r\n{{}}", h), 400), (format!("POST /procs HTTP/1.1\r\n{}content-type: application/json\r\ncontent-length: 0\r\n\r\n", h), 400),
        ("garbage\r\n\r\n".into(), 0), ("hex:ff00fe0d0a0d0a".into(), 0), ("GET /procs HTTP/9.9\r\n\r\n".into(), 0), ("GET /procs\r\n".into(), 0), (format!("GET /procs HTTP/1.1\r\nx: {}\r\n\r\n", "y".repeat(70_000)), 0),
        (format!("POST /procs HTTP/1.1\r\n{}content-type: application/json\r\ncontent-length: 99999\r\n\r\n{{\"specs\"", h), 0),
        (format!("POST /procs HTTP/1.1\r\n{}content-type: application/json\r\ntransfer-encoding: chunked\r\n\r\nzz\r\n", h), 0),
        (format!("GET /procs/%ff%fe HTTP/1.1\r\n{}\r\n", h), 0), (format!("GET /procs/a/output/zz/data HTTP/1.1\r\n{}\r\n", h), 0), (format!("POST /procs/a/signals/SIGFOO HTTP/1.1\r\n{}content-length: 0\r\n\r\n", h), 0),
        (format!("GET /procs/a/output/99999999999999/data HTTP/1.1\r\n{}\r\n", h), 0), (format!("DELETE /procs HTTP/1.1\r\n{}content-length: 0\r\n\r\n", h), 405),
        (format!("POST /procs HTTP/1.1\r\n{}content-type: application/json\r\ncontent-length: 12\r\n\r\n{{\"specs\":[]}}", h), 400), (format!("GET /procs HTTP/1.0\r\n\r\n"), 0), (format!("OPTIONS * HTTP/1.1\r\n{}\r\n", h), 0),
        (format!("GET /procs HTTP/1.1\r\n{}\r\nGET /procs HTTP/1.1\r\n{}\r\n", h, h), 200),
    ];
    let k = g.r.below(v.len() as u64) as usize;
    v[k].clone()
}
fn c13(g: &mut G) {
    let mut pr = BASE;
    pr.big = 30_000; pr.life_us = 2_000_000; pr.fail = 0.05;
    let ids = starter(g, &pr, "a", 2, 3, 0.2, 2);
    for _ in 0..g.r.range(1, 5) {
        let mut ops = vec![];
        for k in 0..g.r.range(1, 8) {
            let id = if g.r.p(0.1) { "nobody".into() } else { g.r.pick(&ids).clone() };
            let gp = g.gap() / 2;
            let what = match g.r.below(10) { 0 | 1 => Do::List, 2 => Do::Get { id }, 3 => Do::Output { id, fd: g.fd_name(&["stdout", "stderr", "stdin", "77", "junk"]), start: 0, stop: None }, 4 => Do::Delete { id }, 5 => Do::Signal { id, sig: "SIGUSR2".into() }, 6 => { let i = g.ids(&format!("n{}x{}", g.n, k), 1); let s = g.request(&pr, &i, 0.0); Do::Start { specs: s } } _ => { let (bytes, expect) = raw(g); Do::Raw { bytes, expect } } };
            let mut o = g.at(gp, what);
            let h = &mut o.how;
            h.newconn = g.r.p(0.2);
            if g.r.p(0.15) { h.frag = g.r.range(1, 40) as usize; h.frag_gap_us = g.r.logu(1, 100_000); }
            if g.r.p(0.12) { h.abandon = Some(g.r.range(0, 120) as usize); h.rst = g.r.p(0.5); }
            else if g.r.p(0.08) { h.abandon_us = Some(g.r.logu(1, 50_000)); h.rst = g.r.p(0.5); }
            if g.r.p(0.06) { h.half_close = true; }
            if g.r.p(0.08) { h.leave_open = true; }
            if g.r.p(0.06) { h.abandon = Some(0); h.rst = false; h.leave_open = true; }
            if g.r.p(0.1) { h.slow_read_us = g.r.logu(1000, 3_000_000); }
            ops.push(o);
        }
        g.client(ops);
    }
    if g.r.p(0.3) { for _ in 0..g.r.range(1, 4) { let e = *g.r.pick(&[ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPERM, EPROTO]); g.p.accept_errs.push(e); } }
    if g.r.p(0.1) { g.p.max_fds = g.r.range(24, 40) as i32; }
    else if g.r.p(0.06) {
        // Many connections at once, held open to no purpose.
        let mut ops = vec![];
        let n = g.r.range(20, 300);
        let part = g.r.p(0.5);
        for _ in 0..n { let mut o = g.at(0, Do::List); o.how.newconn = true; o.how.abandon = Some(if part { g.r.below(40) as usize } else { 0 }); o.how.leave_open = true; ops.push(o); }
        g.p.sched.stall_p = g.p.sched.stall_p.min(0.002);
        g.client(ops);
    }
    g.observer(45);
}
/// The same all over again, with rests between: whatever is left behind adds up.
const CYCLES: u64 = 16;
fn cycles(g: &mut G) {
    let mut pr = BASE;
    pr.big = 3000; pr.life_us = 300_000; pr.cap = 0.8; pr.forever = 0.0; pr.fail = if g.r.p(0.3) { 0.5 } else { 0.1 }; pr.ignore = 0.0; pr.grand = 0.0; pr.file = 0.05;
    g.p.sched.calm_after = g.p.sched.calm_after.min(2_000);
    g.p.sched.base_us = g.p.sched.base_us.min(30);
    g.p.sched.sock_cap = g.p.sched.sock_cap.max(4096);
    g.p.sched.net_lat_us = g.p.sched.net_lat_us.min(2_000);
    g.p.sched.net_jit_us = g.p.sched.net_jit_us.min(1_000);
    let ag = g.r.p(0.35);
    if ag {
        let a = std::mem::take(&mut g.p.args);
        agent(g);
        g.p.args.extend(a);
        g.p.args.extend(["--connect-interval-start".into(), "0.1".into()]);
    }
    g.n = 1000;
    let (mut all, nc) = (vec![], g.r.range(1, 2));
    for k in 0..nc {
        let mut ops = vec![];
        for j in 0..g.r.range(1, 2) {
            let n = g.r.range(1, 4) as usize;
            let ids = g.ids(&format!("zz00-{}-{}-", k, j), n);
            let specs = if g.r.p(0.1) { json!({}) } else if g.r.p(0.2) { bad_request(g, &pr, &ids) } else { g.request(&pr, &ids, 0.3) };
            ops.push(g.at(0, Do::Start { specs }));
            let w = g.watch(&ids, 2); ops.extend(w);
            if g.r.p(0.3) { let id = g.r.pick(&ids).clone(); let sig = g.r.pick(&["SIGTERM", "9", "SIGUSR1", "bogus"]).to_string(); ops.push(g.at(10_000, Do::Signal { id, sig })); }
            all.extend(ids);
            if g.r.p(0.3) { let (b, e) = raw(g); let mut o = g.at(0, Do::Raw { bytes: b, expect: e }); if g.r.p(0.5) { o.how.abandon = Some(20); o.how.rst = g.r.p(0.5); } ops.push(o); }
        }
        for o in &mut ops { o.gap_us = o.gap_us.min(100_000); if g.r.p(0.2) { o.how.newconn = true; } }
        g.client(ops);
    }
    let o = |gap_us: u64, what: Do| ClientOp { gap_us, what, how: How::default() };
    g.p.http.push(ClientPlan { start_us: 3_000_000, observer: false, ops: vec![o(0, Do::List), o(0, Do::GetAll), o(0, Do::OutputAll), o(0, Do::DeleteAll), o(100_000, Do::List)] });
    let mut evs = vec![];
    if ag { for _ in 0..g.r.range(1, 3) { let t = g.r.range(60_000, 2_500_000); evs.push((t, match g.r.below(3) { 0 => Evt::ServerClose { rst: g.r.p(0.4) }, _ => Evt::BreakConns })); } }
    let (http, progs) = (serde_json::to_string(&g.p.http).unwrap(), serde_json::to_string(&g.p.programs).unwrap());
    let (mut ch, mut cp) = (vec![], std::collections::BTreeMap::new());
    let period = 6_000_000;
    for i in 0..CYCLES {
        let sub = |t: &str| { let mut t = t.replace("zz00-", &format!("zz{:02}-", i)); for x in 1001..=g.n { t = t.replace(&format!("P{}", x), &format!("P{}", x as u64 + 100 * i)); } t };
        let mut h: Vec<ClientPlan> = serde_json::from_str(&sub(&http)).unwrap();
        for c in &mut h { c.start_us += i * period; }
        ch.extend(h);
        cp.extend(serde_json::from_str::<std::collections::BTreeMap<String, Program>>(&sub(&progs)).unwrap());
        for (t, e) in &evs { g.p.events.push((t + i * period, e.clone())); }
        g.p.events.push(((i + 1) * period - 10_000, Evt::Mark));
    }
    g.p.http = ch;
    g.p.programs = cp;
    if g.r.p(0.1) { g.p.faults.push(Fault { who: "main".into(), op: "FORK".into(), nth: 0, count: 100_000, errno: EAGAIN }); }
    g.p.mode = "cycles".into();
    g.observer(CYCLES * 6 + 20);
}
fn c22(g: &mut G) {
    if g.r.p(0.15) { return cycles(g); }
    let mut pr = BASE;
    pr.big = 3000; pr.life_us = 500_000; pr.cap = 0.8; pr.forever = 0.03; pr.fail = if g.r.p(0.4) { 0.4 } else { 0.05 }; pr.weird = 0.2; pr.ignore = 0.0;
    for k in 0..g.r.range(1, 3) {
        let mut ops = vec![];
        for j in 0..g.r.range(2, 6) {
            let n = g.r.range(1, 4) as usize;
            let ids = g.ids(&format!("c{}-{}-", k, j), n);
            let specs = if g.r.p(0.15) { bad_request(g, &pr, &ids) } else { g.request(&pr, &ids, 0.4) };
            let mut o = g.at(0, Do::Start { specs });
            if g.r.p(0.08) { o.how.abandon_us = Some(g.r.logu(1, 20_000)); o.how.rst = true; }
            ops.push(o);
            for id in &ids { if g.r.p(0.5) { ops.push(g.at(0, Do::WaitEnd { id: id.clone(), poll_us: 100_000, max: 15 })); } }
            ops.push(g.at(0, Do::List));
            ops.push(g.at(0, Do::DeleteAll));
            let (b, e) = raw(g);
            if g.r.p(0.2) { let mut o = g.at(0, Do::Raw { bytes: b, expect: e }); o.how.abandon = Some(20); ops.push(o); }
        }
        g.client(ops);
    }
    if g.r.p(0.3) {
        let op = g.r.pick(&["FORK", "PIPE2", "MKSTEMP", "UNLINK"]).to_string();
        let nth = g.r.below(8) as u32;
        let errno = match op.as_str() { "FORK" => EAGAIN, "UNLINK" => EACCES, _ => EMFILE };
        g.p.faults.push(Fault { who: "main".into(), op, nth, count: g.r.range(1, 3) as u32, errno });
    }
    g.observer(45);
}
// ------------------------------------------------------------------ agents
pub const AGENT_PROPS: [&str; 4] = ["C14", "C15", "C16", "C17"];
const FAILS: [&str; 24] = ["refuse", "blackhole", "noname", "tcp_silent", "tcp_close", "tls_garbage", "tls_partial", "wrong_host_cert", "untrusted_cert", "expired_cert", "future_cert", "self_signed_cert", "http_reject", "http_garbage", "http_silent", "http_partial", "ws_silent", "wrong_first", "text_first", "junk_first", "unregistered", "close_after_register", "bad_accept", "refuse"];
/// Makes the supervisor an agent of a server that will behave in the end.
fn agent(g: &mut G) {
    g.p.args = vec!["--agent".into()];
    let host = g.r.pick(&["agents.example", "agents.example", "localhost", "10.0.0.1", "127.0.0.1"]).to_string();
    if g.r.p(0.15) { g.p.env.insert("PROCSTAR_AGENT_HOST".into(), host); } else { g.p.args.extend(["--agent-host".into(), host]); if g.r.p(0.1) { g.p.env.insert("PROCSTAR_AGENT_HOST".into(), "elsewhere.example".into()); } }
    if g.r.p(0.2) { g.p.args.extend(["--agent-port".into(), "59789".into()]); }
    if g.r.p(0.6) { g.p.args.extend(["--conn-id".into(), g.r.pick(&["conn", "c\u{e9}", "a b"]).to_string()]); }
    if g.r.p(0.5) { g.p.args.extend(["--group-id".into(), g.r.pick(&["grp", "default", ""]).to_string()]); }
    g.p.env.insert("PROCSTAR_AGENT_CERT".into(), "/sim/ca.pem".into());
    let tok = g.r.pick(&["token", "", "s3cret w\u{ef}th spaces"]).to_string();
    if !tok.is_empty() { g.p.env.insert("PROCSTAR_AGENT_TOKEN".into(), tok); }
    g.p.server = Some(ServerPlan { then: Attempt { kind: "ok".into(), ..Default::default() }, frag_frames: g.r.p(0.15), pipelined: g.r.p(0.3), ..Default::default() });
    // Cryptography over a tiny window would take for ever.
    g.p.sched.sock_cap = g.p.sched.sock_cap.max(4096);
}
/// Makes the supervisor, serving already, an agent too, whose server and network are no help.
fn agent_too(g: &mut G, until_us: u64, deletes: bool) {
    let a = std::mem::take(&mut g.p.args);
    agent(g);
    g.p.args.extend(a);
    if g.r.p(0.4) { g.p.args.extend(["--connect-interval-start".into(), "0.2".into()]); }
    for _ in 0..g.r.below(4) { let a = attempt(g, 0.4); g.p.server.as_mut().unwrap().attempts.push(a); }
    let fail = g.r.p(0.2);
    if fail { let a = attempt(g, 1.0); g.p.server.as_mut().unwrap().then = a; }
    if g.r.p(0.6) { let n = g.r.range(1, 3); net_events(g, n, until_us); }
    if deletes { let mut f = vec![]; for _ in 0..g.r.range(1, 8) { let gp = g.us(10_000, 8_000_000); f.push(g.at(gp, Do::List)); f.push(g.at(0, Do::GetAll)); f.push(g.at(0, Do::DeleteAll)); } g.p.server.as_mut().unwrap().final_script = f; }
}
fn attempt(g: &mut G, fail: f64) -> Attempt {
    let mut a = Attempt { kind: if g.r.p(0.15) { "ok12".into() } else { "ok".into() }, rst: g.r.p(0.4), ..Default::default() };
    if g.r.p(fail) { a.kind = g.r.pick(&FAILS).to_string(); a.hold_us = if g.r.p(0.7) { Some(g.r.logu(1, 20_000_000)) } else { None }; }
    else { if g.r.p(0.7) { a.drop_us = Some(g.r.logu(1, 8_000_000)); } if g.r.p(0.4) { a.hold_us = Some(g.r.logu(1000, 6_000_000)); } }
    a
}
fn observe(g: &mut G, gap: u64) -> Vec<ClientOp> { let mut v = vec![]; for (d, w) in [(gap, Do::List), (0, Do::GetAll), (0, Do::OutputAll)] { v.push(g.at(d, w)); } v }
/// Requests a server makes.
fn agent_ops(g: &mut G, pr: &Prof, pfx: &str, n: usize, ids: &mut Vec<String>, odd: f64) -> Vec<ClientOp> {
    let mut v = vec![];
    for k in 0..n {
        let gp = match g.r.below(4) { 0 => 0, 1 => g.r.logu(1, 20_000), _ => g.r.logu(1000, 3_000_000) };
        if g.r.p(odd) { let b = odd_message(g, ids); v.push(g.at(gp, Do::Raw { bytes: b, expect: 0 })); continue; }
        if !ids.is_empty() && g.r.p(0.06) {
            // An id used again at once.
            let id = g.r.pick(ids).clone();
            v.push(g.at(gp, Do::WaitEnd { id: id.clone(), poll_us: 100_000, max: 20 }));
            for _ in 0..g.r.range(1, 3) {
                v.push(g.at(0, Do::Delete { id: id.clone() }));
                let specs = g.request(pr, &[id.clone()], 0.0);
                v.push(g.at(0, Do::Start { specs }));
                if g.r.p(0.5) { v.push(g.at(0, Do::WaitEnd { id: id.clone(), poll_us: 100_000, max: 20 })); }
            }
            continue;
        }
        let x = if ids.is_empty() { 0 } else { g.r.below(14) };
        let id = if g.r.p(0.05) || ids.is_empty() { "nobody".to_string() } else { g.r.pick(ids).clone() };
        let what = match x {
            0..=3 => { let m = g.r.range(1, 3) as usize; let mut new = g.ids(&format!("{}{}-", pfx, k), m); if g.r.p(0.08) && !ids.is_empty() { new[0] = g.r.pick(ids).clone(); } let specs = if g.r.p(0.06) { bad_request(g, pr, &new) } else { g.request(pr, &new, 0.25) }; for i in new { if !ids.contains(&i) { ids.push(i); } } Do::Start { specs } }
            4 | 5 => Do::Get { id },
            6 => Do::List,
            7 | 8 => Do::Delete { id },
            9 => Do::Signal { id, sig: g.r.pick(&["15", "9", "10", "12", "18", "1", "0", "65", "-1", "64", "1000000"]).to_string() },
            10 | 11 => { let fd = g.fd_name(&["stdout", "stderr", "stdin", "3", "7", "junk", "-1", "+1"]); let (start, stop) = match g.r.below(6) { 0 => (g.r.logu(1, 3000) as i64, None), 1 => (0, Some(g.r.logu(1, 3000) as i64)), 2 => { let a = g.r.logu(1, 1000) as i64; (a, Some(a + g.r.below(2000) as i64)) } 3 => *g.r.pick(&[(-1, None), (0, Some(-5)), (10, Some(5)), (i64::MAX, None), (0, Some(i64::MAX)), (i64::MAX, Some(i64::MAX)), (i64::MIN, None), (1 << 40, None)]), _ => (0, None) }; Do::Output { id, fd, start, stop } }
            _ => Do::WaitEnd { id, poll_us: 100_000, max: 20 },
        };
        v.push(g.at(gp, what));
    }
    v
}
fn odd_message(g: &mut G, ids: &[String]) -> String {
    let id = if ids.is_empty() { "x".to_string() } else { g.r.pick(ids).clone() };
    let v: Vec<String> = vec![
        "msg:{\"type\":\"Registered\"}".into(), "msg:{\"type\":\"Nonsense\"}".into(), "msg:{}".into(), "msg:[]".into(), "msg:null".into(), "msg:7".into(), "msg:\"Registered\"".into(), "msg:{\"type\":7}".into(),
        "msg:{\"type\":\"ProcStartRequest\"}".into(), "msg:{\"type\":\"ProcStartRequest\",\"specs\":[]}".into(), "msg:{\"type\":\"ProcStartRequest\",\"specs\":{\"zz\":{}}}".into(), "msg:{\"type\":\"ProcStartRequest\",\"specs\":{\"zz\":{\"argv\":7}}}".into(), "msg:{\"type\":\"ProcStartRequest\",\"specs\":{\"zz\":{\"argv\":[]}}}".into(), "msg:{\"type\":\"ProcStartRequest\",\"specs\":{}}".into(),
        "msg:{\"type\":\"ProcStartRequest\",\"specs\":{\"zz\":{\"argv\":[\"/bin/prog\"],\"fds\":[[\"junk\",\"close\"]]}}}".into(),
        format!("msg:{{\"type\":\"ProcSignalRequest\",\"proc_id\":\"{}\",\"signum\":\"SIGTERM\"}}", id), format!("msg:{{\"type\":\"ProcSignalRequest\",\"proc_id\":\"{}\",\"signum\":99999999999}}", id), format!("msg:{{\"type\":\"ProcSignalRequest\",\"proc_id\":\"{}\"}}", id),
        "msg:{\"type\":\"ProcResultRequest\",\"proc_id\":7}".into(), "msg:{\"type\":\"ProcResultRequest\"}".into(), format!("msg:{{\"type\":\"ProcFdDataRequest\",\"proc_id\":\"{}\",\"fd\":\"stdout\",\"start\":\"x\",\"stop\":null}}", id), format!("msg:{{\"type\":\"ProcFdDataRequest\",\"proc_id\":\"{}\",\"fd\":\"stdout\",\"start\":1.5}}", id),
        "msg:{\"type\":\"ProcResultRequest\",\"proc_id\":\"x y\",\"more\":1}".into(), "hex:".into(), "hex:c1".into(), "hex:ff".into(), "hex:dfffffffff".into(), "hex:ddffffffff".into(), "hex:81a474797065".into(), "hex:81a474797065dbffffffff".into(), "hex:c6ffffffff00".into(),
        "text:{}".into(), "text:".into(), "ping:".into(), "ping:payload".into(), "pong:unasked".into(), "frame:8300".into(), "frame:ff00".into(), "frame:0000".into(), "frame:c20461626364".into(), "frame:827f7fffffffffffffff".into(), "frame:8982ffffffff0000".into(), "frame:0281a1".into(), "frame:8800".into(), "frame:880203".into(), "frame:897e0100".into(), "frame:81027fff".into(), "tcp:00112233".into(), "tcp:170303000568656c6c6f".into(), "tcp:1503030002022a".into(),
        format!("hex:{}", "91".repeat(2000)), format!("hex:{}", "81a161".repeat(500)), format!("hex:81a474797065{}", "91".repeat(5000)),
    ];
    let k = g.r.below(v.len() as u64) as usize;
    v[k].clone()
}
fn net_events(g: &mut G, n: u64, until_us: u64) {
    for _ in 0..n {
        let t = g.r.range(60_000, until_us);
        let e = match g.r.below(7) {
            0 | 1 => Evt::BreakConns, 2 => Evt::ServerClose { rst: g.r.p(0.4) }, 3 => Evt::ServerStall { us: g.r.logu(10_000, 20_000_000) },
            _ => Evt::Hold { us: g.r.logu(10_000, 15_000_000), from_agent: g.r.p(0.5) },
        };
        g.p.events.push((t, e));
    }
}
fn backoff(g: &mut G) -> (f64, f64, f64) {
    let (mut s, mut m, mut x) = (1.0, 2.0, 60.0);
    if g.r.p(0.6) { s = *g.r.pick(&[0.1, 0.5, 1.0, 3.0]); g.p.args.extend(["--connect-interval-start".into(), format!("{}", s)]); }
    if g.r.p(0.5) { m = *g.r.pick(&[1.0, 1.5, 2.0, 10.0, 1e300]); g.p.args.extend(["--connect-interval-mult".into(), format!("{}", m)]); }
    if g.r.p(0.5) { x = *g.r.pick(&[3.0, 5.0, 20.0]); g.p.args.extend(["--connect-interval-max".into(), format!("{}", x)]); }
    // Not too many attempts.
    if m == 1.0 && s < 1.0 { g.p.args.extend(["--connect-count-max".into(), "60".into()]); }
    (s, m, x)
}
fn c14(g: &mut G) {
    agent(g);
    let mut pr = BASE;
    pr.big = 300; pr.life_us = 3_000_000; pr.forever = 0.2; pr.grand = 0.0;
    backoff(g);
    if g.r.p(0.4) && !g.flag("--connect-count-max") { let n = g.r.range(0, 6); g.p.args.extend(["--connect-count-max".into(), n.to_string()]); }
    if g.r.p(0.08) { g.p.env.remove("PROCSTAR_AGENT_CERT"); }
    if g.r.p(0.1) { g.p.args.extend(["--restrict-exe".into(), "/bin/prog".into()]); }
    if g.r.p(0.3) { let i = g.ids("i", 2); let s = g.request(&pr, &i, 0.2); g.p.input = Some(json!({ "specs": s })); }
    let n = g.r.range(1, 9);
    let fail = *g.r.pick(&[0.5, 0.8, 1.0]);
    for _ in 0..n { let a = attempt(g, fail); g.p.server.as_mut().unwrap().attempts.push(a); }
    if g.r.p(0.15) { let a = attempt(g, 1.0); g.p.server.as_mut().unwrap().then = a; }
    let mut ids = vec![];
    for k in 0..2 { let c = g.r.range(0, 3) as usize; let o = agent_ops(g, &pr, &format!("s{}x", k), c, &mut ids, 0.05); g.p.server.as_mut().unwrap().scripts.push(o); }
    if g.r.p(0.3) { let n = g.r.range(1, 2); net_events(g, n, 60_000_000); }
    if g.r.p(0.1) { let us = g.r.range(100_000, 60_000_000); let s = *g.r.pick(&[SIGTERM, SIGQUIT, SIGUSR1]); g.p.events.push((us, Evt::Sup { sig: s })); }
    if g.r.p(0.1) { let us = g.r.range(100_000, 60_000_000); g.p.events.push((us, Evt::WallJump { us: *g.r.pick(&[-3_600_000_000i64, 86_400_000_000, 5_000_000]) })); }
    g.p.until_us = 600_000_000;
}
fn c15(g: &mut G) {
    agent(g);
    let mut pr = BASE;
    pr.big = *g.r.pick(&[200, 3000]); pr.life_us = 5_000_000; pr.forever = 0.15; pr.fail = 0.12; pr.grand = 0.05; pr.ignore = 0.1;
    if g.r.p(0.4) { g.p.args.extend(["--connect-interval-start".into(), "0.2".into()]); }
    let mut ids = vec![];
    if g.r.p(0.5) { ids = g.ids("i", 3); let s = g.request(&pr, &ids, 0.2); g.p.input = Some(json!({ "specs": s })); }
    let n = g.r.range(0, 4);
    for _ in 0..n { let a = attempt(g, 0.25); g.p.server.as_mut().unwrap().attempts.push(a); }
    for k in 0..n + 1 { let c = g.r.range(1, 9) as usize; let mut o = agent_ops(g, &pr, &format!("s{}x", k), c, &mut ids, 0.01); if k == n { o.extend(observe(g, 8_000_000)); } g.p.server.as_mut().unwrap().scripts.push(o); }
    let f = observe(g, 5_000_000);
    g.p.server.as_mut().unwrap().final_script = f;
    if g.r.p(0.5) {
        g.p.args.push("--serve".into());
        let mut h = starter(g, &pr, "h", 3, 3, 0.2, 1);
        h.extend(ids.clone());
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 6) { let id = g.r.pick(&h).clone(); let gp = g.gap(); let what = match g.r.below(4) { 0 => Do::Signal { id, sig: "SIGKILL".into() }, 1 | 2 => Do::Delete { id }, _ => Do::DeleteAll }; let again = match &what { Do::Delete { id } if g.r.p(0.3) => Some(id.clone()), _ => None }; ops.push(g.at(gp, what)); if let Some(id) = again { let specs = g.request(&pr, &[id], 0.0); ops.push(g.at(0, Do::Start { specs })); } if g.r.p(0.3) { ops.push(g.at(0, Do::List)); } }
        g.client(ops);
    }
    if g.r.p(0.05) && g.flag("--serve") { crowd(g, "m"); }
    if g.r.p(0.5) { let n = g.r.range(1, 3); net_events(g, n, 15_000_000); }
    if g.r.p(0.35) { let us = g.r.range(500_000, 20_000_000); let s = *g.r.pick(&[SIGTERM, SIGQUIT, SIGUSR1, SIGUSR1]); g.p.events.push((us, Evt::Sup { sig: s })); if s == SIGUSR1 && g.r.p(0.4) { let d = g.us(1000, 10_000_000); g.p.events.push((us + d, Evt::Sup { sig: SIGTERM })); } }
    if g.r.p(0.2) {
        // Idle in the end.
        let us = g.r.range(500_000, 20_000_000);
        g.p.events.push((us, Evt::Sup { sig: SIGUSR1 }));
        let mut f = vec![];
        for _ in 0..g.r.range(2, 10) { let gp = g.us(100_000, 8_000_000); f.push(g.at(gp, Do::List)); f.push(g.at(0, Do::GetAll)); f.push(g.at(0, Do::DeleteAll)); }
        if g.flag("--serve") && g.r.p(0.5) { g.client(f); } else { g.p.server.as_mut().unwrap().final_script = f; }
    }
    g.p.until_us = 90_000_000;
}
fn c16(g: &mut G) {
    agent(g);
    let mut pr = BASE;
    pr.big = *g.r.pick(&[500, 8000]); pr.life_us = 2_000_000; pr.fail = 0.1; pr.cap = 0.7; pr.env = 0.2; pr.forever = 0.15;
    let mut ids = vec![];
    let odd = *g.r.pick(&[0.0, 0.1, 0.35]);
    let k = g.r.range(1, 3);
    for j in 0..k {
        let c = g.r.range(4, 16) as usize;
        let mut o = agent_ops(g, &pr, &format!("s{}x", j), c, &mut ids, odd);
        if j + 1 == k { o.extend(observe(g, 4_000_000)); }
        g.p.server.as_mut().unwrap().scripts.push(o);
        if j + 1 < k && g.r.p(0.6) { let mut a = attempt(g, 0.0); a.drop_us = Some(g.r.logu(1000, 6_000_000)); g.p.server.as_mut().unwrap().attempts.push(a); }
    }
    let mut f = vec![];
    let c = g.r.range(1, 6) as usize;
    f.extend(agent_ops(g, &pr, "fx", c, &mut ids, 0.0));
    f.extend(observe(g, 3_000_000));
    g.p.server.as_mut().unwrap().final_script = f;
    if g.r.p(0.25) { g.p.args.push("--serve".into()); let w = g.watch(&ids, 6); g.client(w); }
    if g.r.p(0.15) { let us = g.r.range(500_000, 10_000_000); g.p.events.push((us, Evt::Sup { sig: SIGUSR1 })); }
    if g.r.p(0.15) { net_events(g, 1, 10_000_000); }
    g.p.until_us = 80_000_000;
}
fn c17(g: &mut G) {
    agent(g);
    let mut pr = BASE;
    pr.big = *g.r.pick(&[500, 20_000]); pr.life_us = 12_000_000; pr.cap = 0.8; pr.forever = 0.1; pr.kill = 0.2; pr.grand = 0.1;
    backoff(g);
    let mut ids = vec![];
    if g.r.p(0.5) { ids = g.ids("i", 3); let s = g.request(&pr, &ids, 0.3); g.p.input = Some(json!({ "specs": s })); }
    let n = g.r.range(1, 6);
    for _ in 0..n { let mut a = attempt(g, 0.5); if a.kind == "blackhole" && g.r.p(0.7) { a.kind = "refuse".into(); } g.p.server.as_mut().unwrap().attempts.push(a); }
    for k in 0..n.min(3) { let c = g.r.range(1, 6) as usize; let o = agent_ops(g, &pr, &format!("s{}x", k), c, &mut ids, 0.04); g.p.server.as_mut().unwrap().scripts.push(o); }
    let mut f = observe(g, 0);
    f.extend(observe(g, 20_000_000));
    g.p.server.as_mut().unwrap().final_script = f;
    let k = g.r.range(1, 6);
    net_events(g, k, 40_000_000);
    if g.r.p(0.3) { g.p.args.push("--serve".into()); starter(g, &pr, "h", 2, 2, 0.2, 2); let mut w = g.watch(&["h0-0".to_string()], 3); for o in w.iter_mut() { if g.r.p(0.4) { o.how.abandon_us = Some(g.r.logu(1, 20_000)); o.how.rst = true; } } g.client(w); }
    g.p.until_us = 420_000_000;
}
/// Clients in Python.
fn c24(g: &mut G) {
    match g.r.below(10) { 0 | 1 => c02(g), 2 => c03(g), 3 | 4 => c04(g), 5 => c05(g), 6 => c06(g), 7 => c08(g), 8 => c09(g), _ => c13(g) }
    if g.p.http.is_empty() { return c24(g); }
    g.p.pyc = true;
    for (k, v) in [("HOME", "/home/u"), ("SHELL", "/bin/sh"), ("USER", "u"), ("LEAK", "not asked for")] { if g.r.p(0.8) { g.p.env.insert(k.into(), v.into()); } }
    let q = *g.r.pick(&[0.2, 0.6]);
    let mut http = std::mem::take(&mut g.p.http);
    for c in &mut http { for o in &mut c.ops {
        if let Do::Start { specs: Value::Object(m) } = &mut o.what {
            for s in m.values_mut() {
                if !crate::spec::expressible(s) || !g.r.p(q) { continue; }
                let a: Vec<String> = s["argv"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                let what = if crate::spec::bash().is_some() && g.r.p(0.3) { json!(a[1..].join(" ")) } else { s["argv"].clone() };
                let mut vars = s["env"]["vars"].as_object().cloned().unwrap_or_default();
                for n in ["A", "B", "UNI", "MISSING", "PATH", "LEAK", "EMPTY"] { if g.r.p(0.12) { vars.insert(n.into(), if g.r.p(0.7) { json!(true) } else { json!("True") }); } }
                let mut fds = vec![];
                for e in s["fds"].as_array().into_iter().flatten() { let n = crate::spec::fd_num(e[0].as_str().unwrap()).unwrap(); let nm = match g.r.below(3) { 0 => json!(n), 1 => json!(n.to_string()), _ => json!(crate::spec::fd_name(n)) }; fds.push(json!([nm, e[1]])); }
                *s = json!({"make": {"what": what, "env_vars": vars, "fds": fds}});
            }
        }
    } }
    g.p.http = http;
}
/// The real Python server on the other side.
fn c21(g: &mut G) {
    agent(g);
    let frag = g.p.server.take().map_or(false, |s| s.frag_frames);
    let _ = frag;
    let mut pr = BASE;
    pr.big = *g.r.pick(&[300, 3000, 60_000]); pr.life_us = 20_000_000; pr.cap = 0.6; pr.forever = 0.1; pr.kill = 0.2; pr.grand = 0.05; pr.env = 0.1; pr.fail = *g.r.pick(&[0.0, 0.1]); pr.ignore = 0.05;
    g.p.args.extend(["--connect-interval-max".into(), "5".into()]);
    if g.r.p(0.3) { g.p.args.extend(["--connect-interval-start".into(), g.r.pick(&["0.1", "0.5", "3"]).to_string()]); }
    let token = g.p.env.get("PROCSTAR_AGENT_TOKEN").cloned().unwrap_or_default();
    let opt = |g: &G, o: &str| g.p.args.iter().position(|a| a == o).and_then(|i| g.p.args.get(i + 1)).cloned();
    let group = opt(g, "--group-id");
    let mut e = E2ePlan { token, group, cost_us: g.r.logu(1, 3000), tls12: g.r.p(0.15), ..Default::default() };
    if g.r.p(0.5) { e.reconnect_timeout_us = Some(*g.r.pick(&[100_000, 3_000_000, 20_000_000, 60_000_000])); }
    let n = g.r.range(1, 7);
    let fd = |g: &mut G, o: &EOp| -> String {
        let v: Vec<String> = crate::spec::fds_of(&o.specs[&o.id]).iter().filter(|f| f.1 == "capture").map(|f| f.0.to_string()).collect();
        if v.is_empty() || g.r.p(0.1) { g.r.pick(&["stdout", "stderr", "3"]).to_string() } else { g.r.pick(&v).clone() }
    };
    for k in 0..n {
        let id = if k > 0 && g.r.p(0.05) { "j0".to_string() } else { format!("j{}", k) };
        let mut specs = if g.r.p(0.05) { bad_request(g, &pr, &[id.clone()]) } else { g.request(&pr, &[id.clone()], 0.0) };
        if specs.get(&id).is_none() || crate::spec::unparsable(&specs) || specs.as_object().map_or(0, |m| m.len()) != 1 { specs = g.request(&pr, &[id.clone()], 0.0); }
        let mut o = EOp { id, specs, at_us: if g.r.p(0.2) { g.r.below(100_000) } else { g.r.range(60_000, 40_000_000) }, timeout_us: if g.r.p(0.7) { g.r.range(1_000_000, 60_000_000) } else { g.r.logu(1, 2_000_000) }, api: g.r.pick(&["start", "start", "request"]).to_string(), ..Default::default() };
        if g.r.p(0.4) { o.then = if g.r.p(0.6) { "delete".into() } else { let f = fd(g, &o); format!("fd {}", f) }; }
        if g.r.p(0.15) { o.delay_us = g.r.logu(1000, 1_000_000); }
        if g.r.p(0.2) { o.wait_us = g.r.logu(10_000, 20_000_000); }
        if g.r.p(0.4) { for _ in 0..g.r.range(1, 4) { let t = g.r.logu(100, 30_000_000); let a = match g.r.below(8) { 0..=2 => "result".to_string(), 3 | 4 => { let f = fd(g, &o); format!("fd {}", f) } 5 => "delete".into(), _ => format!("signal {}", g.r.pick(&[15, 9, 10, 18, 0])) }; o.acts.push((t, a)); } }
        e.ops.push(o);
    }
    if g.r.p(0.3) { for _ in 0..g.r.range(1, 2) { let t = g.r.range(500_000, 40_000_000); let d = g.r.logu(1000, 15_000_000); e.restarts.push((t, d)); } }
    if g.r.p(0.75) { let k = g.r.range(1, 6); net_events(g, k, 40_000_000); }
    if g.r.p(0.3) { for _ in 0..g.r.range(1, 8) { let t = g.r.range(60_000, 40_000_000); let ev = if g.r.p(0.4) { Evt::BreakHalf { us: g.r.logu(100, 10_000_000) } } else { Evt::BreakConns }; g.p.events.push((t, ev)); } }
    if g.r.p(0.2) { let us = g.r.range(500_000, 40_000_000); let sig = *g.r.pick(&[SIGTERM, SIGTERM, SIGUSR1, SIGINT]); g.p.events.push((us, Evt::Sup { sig })); }
    if g.r.p(0.18) {
        // The end of a process is lost by an agent that shuts down when idle.
        let us = g.r.range(500_000, 30_000_000);
        g.p.events.push((us, Evt::Sup { sig: SIGUSR1 }));
        let mut t = us;
        for _ in 0..g.r.range(1, 3) { t += g.r.logu(1000, 8_000_000); let d = g.r.logu(100_000, 10_000_000); g.p.events.push((t, Evt::Hold { us: d, from_agent: true })); t += d - g.r.below(d / 8 + 1); g.p.events.push((t, Evt::BreakConns)); }
    }
    // Trouble just as something is under way.
    if g.r.p(0.5) { for o in &e.ops { if g.r.p(0.4) { let acts: Vec<u64> = o.acts.iter().map(|a| a.0).collect(); let base = if acts.is_empty() || g.r.p(0.6) { o.at_us } else { o.at_us + *g.r.pick(&acts) }; let t = base + g.r.logu(1, 300_000); let ev = match g.r.below(6) { 1 | 2 => Evt::BreakHalf { us: g.r.logu(100, 10_000_000) }, 0 => Evt::Hold { us: g.r.logu(1000, 3_000_000), from_agent: g.r.p(0.5) }, _ => Evt::BreakConns }; let hold = matches!(ev, Evt::Hold { .. }); g.p.events.push((t, ev)); if hold && g.r.p(0.6) { let u = t + g.r.logu(1000, 2_000_000); let ev = if g.r.p(0.5) { Evt::BreakHalf { us: g.r.logu(100, 10_000_000) } } else { Evt::BreakConns }; g.p.events.push((u, ev)); } } } }
    g.p.e2e = Some(e);
    g.p.until_us = 300_000_000;
}
pub fn family(prop: &str) -> &'static [&'static str] { if HTTP_PROPS.contains(&prop) || prop == "C23" { &HTTP_PROPS } else if AGENT_PROPS.contains(&prop) { &AGENT_PROPS } else { &[] } }
