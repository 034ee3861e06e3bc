//! Seeded search over plans; replay; evidence.
use crate::gen;
use crate::oracle::*;
use crate::plan::*;
use crate::rng::*;
use crate::run::*;
use crate::shrink;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Cfg { pub prop: String, pub paths: Paths, pub runs: u64, pub seed: u64, pub first: u64, pub secs: u64, pub jobs: usize, pub tier: String, pub known: Option<String>, pub evidence: Option<String>, pub replays: String, pub survey: bool, pub mix: u64 }

pub struct Res { pub viol: Vec<Viol>, pub hash: u64, pub inter: u64, pub faults: BTreeMap<String, u64>, pub probes: BTreeMap<String, u64>, pub counts: BTreeMap<String, u64>, pub calls: u64, pub steps: u64, pub sim: u64, pub nontrivial: bool }

/// Runs a plan and decides it.
pub fn decide(p: &Plan, paths: &Paths) -> Res {
    let o = run(p, paths, false);
    let mut c = Ctx::new(p, &o);
    c.check();
    let n = |k: &str| c.counts.get(k).copied().unwrap_or(0);
    let nontrivial = o.w.stats.calls > 500 && n("reports") + n("execs") + n("http answers") + n("agent messages") > 0;
    Res { viol: c.v.clone(), hash: o.w.trace_hash, inter: o.w.inter_hash, faults: o.w.stats.faults.clone(), probes: o.w.stats.probes.clone(), counts: c.counts.clone(), calls: o.w.stats.calls, steps: o.w.step, sim: o.end - T0, nontrivial }
}
pub fn plan_for(prop: &str, seed: u64, k: u64, mix: u64) -> Plan {
    let s = hash2(hash_str(seed, prop), k);
    let mut r = Rng::derive(s, "mix");
    let family: &[&str] = gen::family(prop);
    let src = if r.below(100) < mix && family.len() > 0 { *r.pick(family) } else { prop };
    let mut p = gen::generate(src, s);
    p.note = format!("workload {}, run {}", src, k);
    p.prop = prop.into();
    p
}
struct Known { prop: String, kind: String, text: String }
fn known(f: &Option<String>) -> Vec<Known> {
    let mut v = vec![];
    if let Some(f) = f { if let Ok(s) = std::fs::read_to_string(f) { for l in s.lines() {
        // KNOWN-FINDING: property=<id> kind=<kind words> :: <what fails>
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") { let (p, r) = r.split_once(' ').unwrap_or((r, "")); if let Some(r) = r.strip_prefix("kind=") { let (k, t) = r.split_once(" :: ").unwrap_or((r, "")); v.push(Known { prop: p.into(), kind: k.into(), text: t.into() }); } }
    } } }
    v
}
#[derive(Default)]
struct Agg { runs: u64, calls: u64, steps: u64, sim: u64, faults: BTreeMap<String, u64>, probes: BTreeMap<String, u64>, counts: BTreeMap<String, u64>, inter: BTreeSet<u64>, nontrivial: BTreeSet<u64>, viol: Vec<(u64, Vec<Viol>, u64)>, survey: BTreeMap<String, (u64, u64, String)>, knownhits: BTreeMap<usize, u64>, twice: u64, diverged: Vec<u64>, samples: Vec<Value>, panics: Vec<String> }

pub fn check(cfg: &Cfg) -> i32 {
    let t0 = Instant::now();
    let next = AtomicU64::new(cfg.first);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let kn = known(&cfg.known);
    std::panic::set_hook(Box::new(|i| eprintln!("ksim: {}", i)));
    std::thread::scope(|sc| {
        for _ in 0..cfg.jobs {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= cfg.first + cfg.runs || stop.load(Ordering::SeqCst) || t0.elapsed().as_secs() >= cfg.secs { break; }
                let p = plan_for(&cfg.prop, cfg.seed, k, cfg.mix);
                let r = match std::panic::catch_unwind(|| decide(&p, &cfg.paths)) { Ok(r) => r, Err(e) => { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); agg.lock().unwrap().panics.push(format!("run {}: {}", k, m)); continue; } };
                let again = if k % 40 == 0 { Some(decide(&p, &cfg.paths)) } else { None };
                let mut a = agg.lock().unwrap();
                if let Some(b) = again { a.twice += 1; if b.hash != r.hash { a.diverged.push(k); } }
                a.runs += 1;
                a.calls += r.calls;
                a.steps += r.steps;
                a.sim += r.sim;
                for (n, c) in &r.faults { *a.faults.entry(n.clone()).or_insert(0) += c; }
                for (n, c) in &r.probes { *a.probes.entry(n.clone()).or_insert(0) += c; }
                for (n, c) in &r.counts { *a.counts.entry(n.clone()).or_insert(0) += c; }
                a.inter.insert(r.inter);
                if r.nontrivial { a.nontrivial.insert(r.hash); }
                if a.samples.len() < 3 && r.nontrivial { a.samples.push(json!({"run": k, "seed": p.seed, "workload": p.note, "system_calls": r.calls, "simulated_s": r.sim as f64 / 1e9, "faults": r.faults, "checked": r.counts, "trace_hash": format!("{:016x}", r.hash)})); }
                if cfg.survey { for v in &r.viol { let e = a.survey.entry(format!("{} {}", v.prop, shrink::kind(&v.what))).or_insert((0, k, v.what.clone())); e.0 += 1; } continue; }
                let mine: Vec<Viol> = r.viol.iter().filter(|v| v.prop == cfg.prop).cloned().collect();
                let (hit, fresh): (Vec<Viol>, Vec<Viol>) = mine.into_iter().partition(|v| kn.iter().any(|x| x.prop == v.prop && x.kind == shrink::kind(&v.what)));
                for h in hit { let i = kn.iter().position(|x| x.prop == h.prop && x.kind == shrink::kind(&h.what)).unwrap(); *a.knownhits.entry(i).or_insert(0) += 1; }
                if !fresh.is_empty() { a.viol.push((k, fresh, r.hash)); if a.viol.len() >= 3 { stop.store(true, Ordering::SeqCst); } }
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    for p in &a.panics { eprintln!("ksim: internal error in {}", p); }
    let wall = t0.elapsed().as_secs_f64();
    if cfg.survey {
        let mut v: Vec<_> = a.survey.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        for (k, (n, run, what)) in v { println!("{:5} run {:5} {} | {}", n, run, k, what.chars().take(260).collect::<String>()); }
        println!("{} runs in {:.1}s; diverged {:?} of {}; faults {:?}; counts {:?} probes {:?}", a.runs, wall, a.diverged, a.twice, a.faults, a.counts, a.probes);
        return 0;
    }
    let mut code = 0;
    let mut nviol = 0;
    a.viol.sort_by_key(|v| v.0);
    for (k, vs, _) in &a.viol {
        let p = plan_for(&cfg.prop, cfg.seed, *k, cfg.mix);
        let v = &vs[0];
        let kd = shrink::kind(&v.what);
        let isknown = |x: &Viol| kn.iter().any(|y| y.prop == x.prop && y.kind == shrink::kind(&x.what));
        // Exactly repeatable, or it is not reported.
        let test = |q: &Plan| std::panic::catch_unwind(|| decide(q, &cfg.paths)).map_or(false, |r| r.viol.iter().any(|x| x.prop == cfg.prop && !isknown(x) && shrink::kind(&x.what) == kd));
        if !(test(&p) || test(&p)) { eprintln!("ksim: run {} reported \"{}\" but repeating it did not", k, v.what); continue; }
        let (mut q, tried) = shrink::shrink(&p, &test, 45);
        q.note = format!("{}; minimised with {} runs", q.note, tried);
        let r = decide(&q, &cfg.paths);
        let what = r.viol.iter().find(|x| x.prop == cfg.prop && shrink::kind(&x.what) == kd).map(|x| x.what.clone()).unwrap_or(v.what.clone());
        let _ = std::fs::create_dir_all(&cfg.replays);
        let f = format!("{}/{}-{:x}.json", cfg.replays, cfg.prop, q.seed);
        let mut j = serde_json::to_value(&q).unwrap();
        j["violation"] = json!(what);
        j["kind"] = json!(kd);
        j["trace_hash"] = json!(format!("{:016x}", r.hash));
        std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("{}", what);
        println!("VIOLATION property={} replay={}", cfg.prop, f);
        nviol += 1;
        code = 1;
        break;
    }
    for (i, x) in kn.iter().enumerate() { if x.prop == cfg.prop { println!("KNOWN-FINDING: property={} {} (seen in {} runs)", x.prop, x.text, a.knownhits.get(&i).unwrap_or(&0)); } }
    if let Some(e) = &cfg.evidence {
        let ev = json!({
            "property": cfg.prop, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration", "wall_s": wall, "violations": nviol,
            "assumptions": ["the simulated kernel behaves as Linux does for the calls procstar makes (unmodelled calls are reported)", "threads interleave at system calls and futex operations only", "bounded time means 5 simulated seconds once faults and stalls stop"],
            "coverage": {
                "evaluations": a.runs, "distinct_nontrivial": a.nontrivial.len(),
                "rule": "one evaluation is one simulated execution of the real procstar binary from one seed (workload, schedule, faults); distinct by the hash of its whole system-call trace; non-trivial if it made over 500 system calls and gave the oracle at least one execution or answer to judge",
                "samples": a.samples,
                "runs_per_hour": (a.runs as f64 / wall * 3600.0) as u64, "seeds": format!("hash({}, {}, {}..{})", cfg.seed, cfg.prop, cfg.first, cfg.first + a.runs),
                "simulated_seconds": a.sim as f64 / 1e9, "system_calls": a.calls, "scheduler_steps": a.steps, "faults_injected": a.faults, "probes": a.probes, "distinct_interleavings": a.inter.len(),
                "interleaving_measure": "hash of the order in which tasks, programs, network deliveries and timers were served", "judged": a.counts,
                "determinism": {"runs_repeated": a.twice, "diverged": a.diverged.len()},
                "real": if cfg.prop == "C21" { "the procstar executable with its libraries, unmodified (forked children too, up to execve); the Python agent server, its client API and the websockets library" } else if cfg.prop == "C24" { "the procstar executable with its libraries, unmodified (forked children too, up to execve); the Python specification classes and asynchronous HTTP client, with httpx" } else { "the procstar executable with tokio, hyper, axum, serde, openssl and libc, unmodified (forked children too, up to execve)" },
                "stub": if cfg.prop == "C21" { "the kernel (processes, signals, pipes, files, sockets, clocks, randomness), the supervised programs, the server's event loop and transport (TLS at its end is ours), the clients' own code" } else if cfg.prop == "C24" { "the kernel (processes, signals, pipes, files, sockets, clocks, randomness), the supervised programs, the Python client's transport below httpx" } else { "the kernel (processes, signals, pipes, files, sockets, clocks, randomness), the supervised programs, the HTTP clients, the agent server" },
            }
        });
        if let Some(d) = std::path::Path::new(e).parent() { let _ = std::fs::create_dir_all(d); }
        std::fs::write(e, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!("{}: {} runs ({} non-trivial, {} interleavings) in {:.1} s, {} faults, {}", cfg.prop, a.runs, a.nontrivial.len(), a.inter.len(), wall, a.faults.values().sum::<u64>(), if nviol > 0 { "VIOLATED" } else { "held" });
    code
}

pub fn replay(f: &str, paths: &Paths) -> i32 {
    let p = Plan::load(f);
    let j: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    let r = decide(&p, paths);
    println!("trace hash {:016x} (recorded {})", r.hash, j["trace_hash"].as_str().unwrap_or("-"));
    for v in &r.viol { println!("{} {}", v.prop, v.what); }
    if r.viol.iter().any(|v| v.prop == p.prop) { println!("VIOLATION property={} replay={}", p.prop, f); 1 } else { 0 }
}

pub fn show(f: &str, paths: &Paths) {
    let p = if std::path::Path::new(f).exists() { Plan::load(f) } else { let (a, b) = f.split_once(':').unwrap(); plan_for(a, std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1), b.parse().unwrap(), 15) };
    let r = run(&p, paths, std::env::var_os("TRACE").is_some());
    if let Some(t) = &r.w.trace { for l in t { println!("{}", l); } }
    if std::env::var_os("PLAN").is_some() { println!("{}", serde_json::to_string_pretty(&p).unwrap()); }
    if std::env::var_os("REC").is_some() { for x in &r.w.rec { let s = format!("{:?}", x.2); println!("{:.6} #{} {}", (x.0 - T0) as f64 / 1e9, x.1, s.chars().take(300).collect::<String>()); } }
    for c in &r.h.borrow().calls { let s = format!("{:.6} {} #{}-{} {:?} -> {}", (c.t0 - T0) as f64 / 1e9, c.client, c.s0, c.s1, c.req, match &c.out { crate::hist::Outc::Http { status, body, .. } => format!("{} {}", status, String::from_utf8_lossy(body)), o => format!("{:?}", o) }); println!("{}", s.chars().take(if std::env::var_os("FULL").is_some() { 100000 } else { 400 }).collect::<String>()); }
    for m in &r.h.borrow().agent { println!("{}", format!("{:.6} #{} conn {} {:?}", (m.0 - T0) as f64 / 1e9, m.1, m.2, m.3).chars().take(if std::env::var_os("FULL").is_some() { 100000 } else { 300 }).collect::<String>()); }
    for m in &r.h.borrow().e2e { println!("{}", format!("{:.6} #{} {}", (m.0 as i64 - T0 as i64) as f64 / 1e9, m.1, m.2).chars().take(if std::env::var_os("FULL").is_some() { 100000 } else { 300 }).collect::<String>()); }
    for m in &r.h.borrow().attempts { println!("{:?}", m); }
    println!("stdout {}", String::from_utf8_lossy(&r.stdout).chars().take(600).collect::<String>());
    println!("stderr {}", String::from_utf8_lossy(&r.stderr).chars().take(3000).collect::<String>());
    println!("hash {:016x} {:x} steps {} calls {} end {} state {:?} hang {:?} faults {:?} probes {:?}", r.w.trace_hash, r.w.inter_hash, r.w.step, r.w.stats.calls, (r.end - T0) as f64 / 1e9, r.w.procs[&r.main].state, r.w.hang, r.w.stats.faults, r.w.stats.probes);
    let mut c = Ctx::new(&p, &r);
    c.check();
    for v in &c.v { println!("{} {}", v.prop, v.what); }
    println!("{:?}", c.counts);
}
