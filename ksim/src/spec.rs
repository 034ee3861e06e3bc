//! The oracle's own reading of a process spec: validity, environment, wiring.
use crate::kernel::*;
use crate::plan::*;
use libc::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub fn fd_num(n: &str) -> Option<i32> { match n { "stdin" => Some(0), "stdout" => Some(1), "stderr" => Some(2), x => { let y = x.strip_prefix('+').unwrap_or(x); if y.starts_with('+') { return None; } x.parse().ok() } } }
pub fn fd_name(n: i32) -> String { match n { 0 => "stdin".into(), 1 => "stdout".into(), 2 => "stderr".into(), x => x.to_string() } }

/// (fd, kind, parameters) of each descriptor spec, in order.
pub fn fds_of(spec: &Value) -> Vec<(String, String, Value)> {
    let mut v = vec![];
    if let Some(a) = spec["fds"].as_array() {
        for e in a {
            let n = e[0].as_str().unwrap_or("?").to_string();
            match &e[1] {
                Value::String(s) => v.push((n, s.clone(), Value::Null)),
                Value::Object(m) => { let (k, p) = m.iter().next().map(|(k, p)| (k.clone(), p.clone())).unwrap_or_default(); v.push((n, k, p)); }
                _ => v.push((n, "?".into(), Value::Null)),
            }
        }
    }
    v
}
/// Are the descriptor specs of a request consistent?  (None: consistent.)
pub fn invalid(specs: &Value) -> Option<String> {
    let m = match specs.as_object() { Some(m) => m, None => return Some("specs not an object".into()) };
    let mut writes = BTreeSet::new();
    let mut reads = vec![];
    for (id, sp) in m {
        if !sp.is_object() { return Some("spec not an object".into()); }
        if let Some(k) = sp.as_object().unwrap().keys().find(|k| !["id", "exe", "argv", "env", "fds"].contains(&k.as_str())) { return Some(format!("unknown field {}", k)); }
        if let Some(a) = sp.get("argv") { if !a.as_array().map_or(false, |a| a.iter().all(|x| x.is_string())) { return Some("bad argv".into()); } }
        if sp.get("exe").map_or(true, |e| e.is_null()) && sp["argv"].as_array().map_or(true, |a| a.is_empty()) { return Some("no executable".into()); }
        let mut seen = BTreeSet::new();
        for (n, k, p) in fds_of(sp) {
            let fd = match fd_num(&n) { Some(f) => f, None => return Some(format!("bad fd {}", n)) };
            if !seen.insert(fd) { return Some(format!("duplicate fd {}", n)); }
            match k.as_str() {
                "inherit" | "close" => {}
                "null" | "capture" | "dup" | "file" => if !p.is_object() { return Some(format!("bad {} spec", k)); },
                "pipe-write" => { writes.insert((id.clone(), fd)); }
                "pipe-read" => { let f = match p["fd"].as_str().and_then(fd_num) { Some(f) => f, None => return Some("bad pipe-read".into()) }; match p["proc_id"].as_str() { Some(i) => reads.push((i.to_string(), f)), None => return Some("bad pipe-read".into()) } }
                _ => return Some(format!("unknown fd kind {}", k)),
            }
        }
    }
    for r in reads { if !writes.remove(&r) { return Some(format!("unmatched pipe-read {:?}", r)); } }
    if let Some(x) = writes.iter().next() { return Some(format!("unmatched pipe-write {:?}", x)); }
    None
}
/// Invalid in a way that the request can't even be understood as one.
pub fn unparsable(specs: &Value) -> bool { invalid(specs).map_or(false, |e| ["unknown f", "duplicate fd", "bad ", "specs not", "spec not"].iter().any(|p| e.starts_with(p))) }
fn has_nul(v: &Value) -> bool { match v { Value::String(s) => s.contains('\0'), Value::Array(a) => a.iter().any(has_nul), Value::Object(m) => m.iter().any(|(k, v)| k != "proc_id" && (k.contains('\0') || has_nul(v))), _ => false } }
pub fn nul(spec: &Value) -> bool { has_nul(spec) }
pub fn exe(spec: &Value) -> Option<String> { spec["exe"].as_str().map(|s| s.to_string()).or_else(|| spec["argv"][0].as_str().map(|s| s.to_string())) }
pub fn argv(spec: &Value) -> Vec<Vec<u8>> { spec["argv"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").as_bytes().to_vec()).collect()).unwrap_or_default() }

pub const SECRET: [&str; 3] = ["PROCSTAR_AGENT_TOKEN", "PROCSTAR_AGENT_CERT", "PROCSTAR_AGENT_KEY"];
pub fn env(spec: &Value, parent: &BTreeMap<Vec<u8>, Vec<u8>>) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut e: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    match &spec["env"]["inherit"] {
        Value::Bool(false) => {}
        Value::Array(a) => for n in a { let k = n.as_str().unwrap_or("").as_bytes().to_vec(); if let Some(v) = parent.get(&k) { e.insert(k, v.clone()); } },
        _ => e = parent.clone(),
    }
    for s in SECRET { e.remove(s.as_bytes()); }
    if let Some(m) = spec["env"]["vars"].as_object() {
        for (k, v) in m { match v { Value::String(s) => { e.insert(k.clone().into_bytes(), s.clone().into_bytes()); } _ => { e.remove(k.as_bytes()); } } }
    }
    e
}

/// The bash the Python side finds.
pub fn bash() -> Option<&'static str> {
    static B: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        use std::os::unix::fs::PermissionsExt;
        let p = std::env::var("PATH").ok()?;
        p.split(':').map(|d| format!("{}/bash", d.trim_end_matches('/'))).find(|f| std::fs::metadata(f).map_or(false, |m| m.is_file() && m.permissions().mode() & 0o111 != 0))
    }).as_deref()
}
/// Whether the Python classes can say this.
pub fn expressible(sp: &Value) -> bool {
    let Some(m) = sp.as_object() else { return false };
    if m.keys().any(|k| !["argv", "env", "fds"].contains(&k.as_str())) { return false; }
    if !sp["argv"].as_array().map_or(false, |a| !a.is_empty() && a.iter().all(|x| x.is_string())) { return false; }
    let e = &sp["env"];
    if m.contains_key("env") && !e.is_object() { return false; }
    if let Some(e) = e.as_object() {
        if e.keys().any(|k| !["inherit", "vars"].contains(&k.as_str())) { return false; }
        if let Some(i) = e.get("inherit") { if !i.is_boolean() && !i.as_array().map_or(false, |a| a.iter().all(|x| x.is_string())) { return false; } }
        if let Some(v) = e.get("vars") { if !v.as_object().map_or(false, |m| m.values().all(|x| x.is_string() || x.is_null())) { return false; } }
    }
    if m.contains_key("fds") && !sp["fds"].is_array() { return false; }
    let mut seen = BTreeSet::new();
    for e in sp["fds"].as_array().unwrap_or(&vec![]) { if !e.as_array().map_or(false, |a| a.len() == 2 && a[0].is_string() && (a[1].is_string() || a[1].as_object().map_or(false, |o| o.len() == 1))) { return false; } }
    for (n, k, p) in fds_of(sp) {
        // Names are a dictionary's keys there.
        if fd_num(&n).map_or(true, |f| f < 0 || !seen.insert(f)) { return false; }
        let only = |ks: &[&str]| p.as_object().map_or(false, |m| m.keys().all(|k| ks.contains(&k.as_str())));
        let flags = p.get("flags").map_or(true, |f| ["Default", "Read", "Write", "Create", "Replace", "CreateAppend", "Append", "ReadWrite"].contains(&f.as_str().unwrap_or("")));
        if !match k.as_str() {
            "inherit" | "close" | "pipe-write" => p.is_null(),
            "null" => only(&["flags"]) && flags,
            "file" => only(&["path", "flags", "mode"]) && flags && p["path"].is_string() && p.get("mode").map_or(true, |m| m.is_u64()),
            "dup" => only(&["fd"]) && p["fd"].is_u64(),
            "capture" => only(&["mode", "encoding", "attached"]) && p.get("mode").map_or(true, |m| m == "memory" || m == "tempfile") && p.get("encoding").map_or(true, |m| m.is_null() || m == "utf-8") && p.get("attached").map_or(true, |a| a.is_boolean()),
            "pipe-read" => only(&["proc_id", "fd"]) && p["proc_id"].is_string() && p["fd"].as_str().and_then(fd_num).map_or(false, |f| f >= 0),
            _ => false,
        } { return false; }
    }
    true
}
/// What specs mean that are given by what to make them of, with the defaults of `make_proc`.
pub fn expand(specs: &Value) -> Value {
    let Some(m) = specs.as_object() else { return specs.clone() };
    Value::Object(m.iter().map(|(i, s)| {
        let Some(k) = s.get("make") else { return (i.clone(), s.clone()) };
        let argv = match &k["what"] { Value::String(c) => serde_json::json!([bash().unwrap_or("bash"), "-c", c]), a => a.clone() };
        let mut inherit = vec!["HOME".to_string(), "SHELL".into(), "USER".into()];
        let mut vars = serde_json::Map::new();
        for (n, v) in k["env_vars"].as_object().into_iter().flatten() { if *v == Value::Bool(true) { inherit.push(n.clone()) } else { vars.insert(n.clone(), v.clone()); } }
        let mut fds: Vec<(String, Value)> = k["fds"].as_array().into_iter().flatten().filter_map(|e| {
            let n = match &e[0] { Value::String(s) => fd_num(s)?, x => x.as_i64()? as i32 };
            Some((fd_name(n), e[1].clone()))
        }).collect();
        for (n, d) in [("stdin", serde_json::json!({"null": {}})), ("stdout", serde_json::json!({"capture": {"mode": "memory", "encoding": "utf-8"}})), ("stderr", serde_json::json!({"capture": {"mode": "memory", "encoding": "utf-8"}}))] { if !fds.iter().any(|f| f.0 == n) { fds.push((n.into(), d)); } }
        (i.clone(), serde_json::json!({"argv": argv, "env": {"inherit": inherit, "vars": vars}, "fds": fds}))
    }).collect())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    Inherited(i32),
    Null { access: i32, append: bool },
    File { path: String, access: i32, append: bool },
    Capture { fd: i32, mem: bool },
    PipeW { fd: i32 },
    PipeR { id: String, fd: i32 },
}
/// (open flags)
pub fn oflags(p: &Value, fd: i32) -> i32 {
    match p["flags"].as_str().unwrap_or("Default") {
        "Read" => O_RDONLY,
        "Write" => O_WRONLY | O_CREAT | O_TRUNC,
        "Create" => O_WRONLY | O_CREAT | O_EXCL,
        "Replace" => O_WRONLY | O_TRUNC,
        "Append" => O_WRONLY | O_APPEND,
        "CreateAppend" => O_WRONLY | O_CREAT | O_APPEND,
        "ReadWrite" => O_RDWR | O_CREAT | O_TRUNC,
        _ => match fd { 0 => O_RDONLY, 1 | 2 => O_WRONLY | O_CREAT | O_TRUNC, _ => O_RDWR | O_CREAT | O_TRUNC },
    }
}
pub struct Wiring {
    /// fd -> (serial of the object, what it is)
    pub fds: BTreeMap<i32, (usize, Src)>,
    /// Setting it up must fail.
    pub must_fail: Option<String>,
    /// It may fail (depends on what other processes did).
    pub may_fail: bool,
}
/// The descriptors the program must begin with, by interpreting the spec in order.
pub fn wiring(plan: &Plan, spec: &Value, max_fds: i32, shared_paths: &BTreeSet<String>) -> Wiring {
    let mut w = Wiring { fds: BTreeMap::new(), must_fail: None, may_fail: false };
    let mut n = 0;
    for i in 0..3 { w.fds.insert(i, (n, Src::Inherited(i))); n += 1; }
    for (f, ce) in &plan.extra_fds { if !ce { w.fds.insert(*f, (n, Src::Inherited(*f))); n += 1; } }
    let mut created: BTreeSet<String> = BTreeSet::new();
    for (name, kind, p) in fds_of(spec) {
        let fd = match fd_num(&name) { Some(f) => f, None => continue };
        if kind != "inherit" && kind != "close" && (fd < 0 || fd >= max_fds) { w.must_fail = Some(format!("descriptor {} out of range", fd)); continue; }
        let src = match kind.as_str() {
            "inherit" => continue,
            "close" => { w.fds.remove(&fd); continue; }
            "dup" => {
                let d = p["fd"].as_i64().unwrap_or(-1) as i32;
                match w.fds.get(&d).cloned() { Some(x) => { w.fds.insert(fd, x); } None => { w.must_fail = Some(format!("dup of closed descriptor {}", d)); } }
                continue;
            }
            "null" => { let f = oflags(&p, fd); Src::Null { access: f & O_ACCMODE, append: f & O_APPEND != 0 } }
            "file" => {
                let path = p["path"].as_str().unwrap_or("").to_string();
                let f = oflags(&p, fd);
                if path == "/dev/null" { Src::Null { access: f & O_ACCMODE, append: f & O_APPEND != 0 } } else {
                    match openable(plan, &path, f, shared_paths, &mut created) { Some(true) => {} Some(false) => w.must_fail = Some(format!("cannot open {}", path)), None => w.may_fail = true }
                    Src::File { path, access: f & O_ACCMODE, append: f & O_APPEND != 0 }
                }
            }
            "capture" => Src::Capture { fd, mem: p["mode"].as_str() == Some("memory") },
            "pipe-write" => Src::PipeW { fd },
            "pipe-read" => Src::PipeR { id: p["proc_id"].as_str().unwrap_or("").into(), fd: p["fd"].as_str().and_then(fd_num).unwrap_or(-1) },
            _ => continue,
        };
        w.fds.insert(fd, (n, src));
        n += 1;
    }
    w
}
/// Can the file be opened so?  None: depends on other processes.
fn openable(plan: &Plan, path: &str, f: i32, shared: &BTreeSet<String>, created: &mut BTreeSet<String>) -> Option<bool> {
    if path.contains('\0') { return Some(false); }
    if shared.contains(path) { return None; }
    let acc = f & O_ACCMODE;
    let known = plan.files.iter().find(|x| x.path == path);
    let builtin_dir = ["/", "/tmp", "/dev", "/proc", "/bin", "/sim", "/out"].contains(&path);
    if known.is_some() || created.contains(path) || builtin_dir {
        if f & O_CREAT != 0 && f & O_EXCL != 0 { return Some(false); }
        if builtin_dir { return Some(acc == O_RDONLY && f & O_TRUNC == 0); }
        if let Some(k) = known {
            if k.kind == "dir" { return Some(acc == O_RDONLY); }
            if k.kind == "fifo" { return None; }
            if acc != O_RDONLY && k.mode & 0o200 == 0 { return Some(false); }
            if acc != O_WRONLY && k.mode & 0o400 == 0 { return Some(false); }
        }
        if created.contains(path) { return None; }
        return Some(true);
    }
    if f & O_CREAT == 0 { return Some(false); }
    let dir = match path.rfind('/') { Some(0) => "/", Some(k) => &path[..k], None => return None };
    if ["/", "/tmp", "/sim", "/out", "/dev", "/bin"].contains(&dir) { created.insert(path.to_string()); return Some(true); }
    match plan.files.iter().find(|x| x.path == dir) { Some(d) if d.kind == "dir" => { if d.mode & 0o200 != 0 { created.insert(path.into()); Some(true) } else { Some(false) } } Some(_) => Some(false), None => Some(false) }
}
/// Does actual description match the expectation?
pub fn matches(src: &Src, d: &FdDesc, w: &World, main: Pid) -> Result<(), String> {
    let want = format!("{:?}", src);
    let bad = || Err(format!("{:?} instead of {}", d.what, want));
    if d.nonblock { return Err("is non-blocking".into()); }
    match (src, &d.what) {
        (Src::Inherited(0), FdWhat::Null) | (Src::Inherited(0), FdWhat::Other) => Ok(()),
        (Src::Inherited(k @ 1..=2), FdWhat::Sink(s)) => if *s == w.sink_of(main, *k) { Ok(()) } else { bad() },
        (Src::Inherited(_), FdWhat::Null) => Ok(()),
        (Src::Null { access, append }, FdWhat::Null) => if d.access == *access && d.append == *append { Ok(()) } else { Err(format!("access mode {} append {} instead of {} {}", d.access, d.append, access, append)) },
        (Src::File { path, access, append }, FdWhat::File { ino, .. }) => {
            if w.fs.get(path).map_or(false, |i| i != ino) { return Err(format!("is not file {}", path)); }
            if w.inodes[*ino].temp { return bad(); }
            if d.access == *access && d.append == *append { Ok(()) } else { Err(format!("access mode {} append {} instead of {} {}", d.access, d.append, access, append)) }
        }
        (Src::File { path, access, .. }, FdWhat::PipeR(p)) | (Src::File { path, access, .. }, FdWhat::PipeW(p)) => { let f = w.fs.get(path).and_then(|i| w.inodes[*i].is_fifo); if f == Some(*p) && d.access == *access { Ok(()) } else { bad() } }
        (Src::Capture { mem: true, .. }, FdWhat::PipeW(_)) => Ok(()),
        (Src::Capture { mem: false, .. }, FdWhat::File { ino, .. }) => if w.inodes[*ino].temp && d.access != O_RDONLY { Ok(()) } else { bad() },
        (Src::PipeW { .. }, FdWhat::PipeW(_)) => Ok(()),
        (Src::PipeR { .. }, FdWhat::PipeR(_)) => Ok(()),
        _ => bad(),
    }
}
