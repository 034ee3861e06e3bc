//! Minimises a failing plan: drops faults, events, clients, requests, processes,
//! descriptors and program steps, and calms the schedule, as long as the same
//! kind of violation remains.
use crate::plan::*;
use crate::vm::*;
use serde_json::Value;
use std::time::Instant;

/// The violation's message without the particulars of the run.
pub fn kind(what: &str) -> String {
    what.split(|c: char| c.is_whitespace() || "()[]{},;:".contains(c)).filter(|w| w.len() > 2 && w.chars().all(|c| c.is_ascii_lowercase() || c == '-')).take(7).collect::<Vec<_>>().join(" ")
}

type Step = Box<dyn Fn(&Plan) -> Option<Plan>>;

fn drop_at<T: Clone>(v: &Vec<T>, a: usize, n: usize) -> Option<Vec<T>> { if a >= v.len() { None } else { let mut x = v.clone(); x.drain(a..(a + n).min(v.len())); Some(x) } }

fn start_ops(p: &Plan) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (c, cl) in p.http.iter().enumerate() { for (o, op) in cl.ops.iter().enumerate() { if matches!(op.what, Do::Start { .. }) { v.push((c, o)); } } }
    if let Some(s) = &p.server {
        for (c, ops) in s.scripts.iter().enumerate() { for (o, op) in ops.iter().enumerate() { if matches!(op.what, Do::Start { .. }) { v.push((1000 + c, o)); } } }
    }
    if let Some(e) = &p.e2e { for k in 0..e.ops.len() { v.push((1_000_000, k)); } }
    v
}
fn op_at<'a>(p: &'a mut Plan, k: (usize, usize)) -> Option<&'a mut ClientOp> { if k.0 >= 1000 { p.server.as_mut()?.scripts.get_mut(k.0 - 1000)?.get_mut(k.1) } else { p.http.get_mut(k.0)?.ops.get_mut(k.1) } }
fn specs_at<'a>(p: &'a mut Plan, k: Option<(usize, usize)>) -> Option<&'a mut Value> {
    match k { Some((1_000_000, k)) => p.e2e.as_mut().and_then(|e| e.ops.get_mut(k)).map(|o| &mut o.specs), None => p.input.as_mut().map(|i| &mut i["specs"]), Some(k) => match op_at(p, k) { Some(ClientOp { what: Do::Start { specs }, .. }) => Some(specs), _ => None } }
}

fn candidates(p: &Plan) -> Vec<Step> {
    let mut v: Vec<Step> = vec![];
    // The schedule.
    v.push(Box::new(|p| { let mut q = p.clone(); let s = q.sched.seed; q.sched = Default::default(); q.sched.seed = s; Some(q) }));
    v.push(Box::new(|p| { let mut q = p.clone(); q.sched.stall_p = 0.0; q.sched.hot.clear(); Some(q) }));
    v.push(Box::new(|p| { let mut q = p.clone(); q.sched.short_p = 0.0; q.sched.frag_p = 0.0; Some(q) }));
    v.push(Box::new(|p| { let mut q = p.clone(); q.sched.sock_cap = 65536; q.sched.pipe_cap = 65536; Some(q) }));
    v.push(Box::new(|p| { let mut q = p.clone(); q.sched.quantum_us = 0; Some(q) }));
    v.push(Box::new(|p| { let mut q = p.clone(); q.sched.net_lat_us = 50; q.sched.net_jit_us = 50; Some(q) }));
    v.push(Box::new(|p| { let mut q = p.clone(); q.reuse_pids = false; Some(q) }));
    v.push(Box::new(|p| { let mut q = p.clone(); q.extra_fds.clear(); Some(q) }));
    v.push(Box::new(|p| { let mut q = p.clone(); q.accept_errs.clear(); Some(q) }));
    v.push(Box::new(|p| { let mut q = p.clone(); q.max_fds = 0; Some(q) }));
    v.push(Box::new(|p| { let mut q = p.clone(); q.stdout = Default::default(); Some(q) }));
    for k in 0..p.faults.len() { v.push(Box::new(move |p| { let mut q = p.clone(); q.faults = drop_at(&p.faults, k, 1)?; Some(q) })); }
    for k in 0..p.events.len() { v.push(Box::new(move |p| { let mut q = p.clone(); q.events = drop_at(&p.events, k, 1)?; Some(q) })); }
    let n = p.http.len();
    for k in (0..n).rev() { if !p.http[k].observer { v.push(Box::new(move |p| { let mut q = p.clone(); q.http = drop_at(&p.http, k, 1)?; Some(q) })); } }
    for k in 0..n { if p.http[k].observer { continue; } let m = p.http[k].ops.len(); for (a, len) in chunks(m) { v.push(Box::new(move |p| { let mut q = p.clone(); let c = q.http.get_mut(k)?; c.ops = drop_at(&p.http[k].ops, a, len)?; Some(q) })); } }
    if let Some(s) = &p.server {
        for k in 0..s.scripts.len() { let m = s.scripts[k].len(); for (a, len) in chunks(m) { v.push(Box::new(move |p| { let mut q = p.clone(); let x = drop_at(&p.server.as_ref()?.scripts.get(k)?.clone(), a, len)?; q.server.as_mut()?.scripts[k] = x; Some(q) })); } }
        for k in 0..s.attempts.len() { v.push(Box::new(move |p| { let mut q = p.clone(); let x = drop_at(&p.server.as_ref()?.attempts, k, 1)?; q.server.as_mut()?.attempts = x; Some(q) })); }
        v.push(Box::new(|p| { let mut q = p.clone(); q.server.as_mut()?.frag_frames = false; Some(q) }));
    }
    if let Some(e) = &p.e2e {
        for (a, len) in chunks(e.ops.len()) { v.push(Box::new(move |p| { let mut q = p.clone(); let x = drop_at(&p.e2e.as_ref()?.ops, a, len)?; q.e2e.as_mut()?.ops = x; Some(q) })); }
        for k in 0..e.restarts.len() { v.push(Box::new(move |p| { let mut q = p.clone(); let x = drop_at(&p.e2e.as_ref()?.restarts, k, 1)?; q.e2e.as_mut()?.restarts = x; Some(q) })); }
        for k in 0..e.ops.len() { for j in (0..e.ops[k].acts.len()).rev() { v.push(Box::new(move |p| { let mut q = p.clone(); let x = drop_at(&p.e2e.as_ref()?.ops.get(k)?.acts, j, 1)?; q.e2e.as_mut()?.ops[k].acts = x; Some(q) })); } }
        for k in 0..e.ops.len() { v.push(Box::new(move |p| { let mut q = p.clone(); let o = q.e2e.as_mut()?.ops.get_mut(k)?; o.then.clear(); o.delay_us = 0; o.wait_us = 0; Some(q) })); }
        v.push(Box::new(|p| { let mut q = p.clone(); let e = q.e2e.as_mut()?; e.cost_us = 1; e.reconnect_timeout_us = None; Some(q) }));
    }
    // Processes and their descriptors.
    let mut places: Vec<Option<(usize, usize)>> = start_ops(p).into_iter().map(Some).collect();
    if p.input.is_some() { places.push(None); }
    for k in places {
        let mut q = p.clone();
        let Some(sp) = specs_at(&mut q, k).cloned() else { continue };
        let Some(m) = sp.as_object() else { continue };
        if m.len() > 1 { for id in m.keys().cloned() { v.push(Box::new(move |p| { let mut q = p.clone(); specs_at(&mut q, k)?.as_object_mut()?.remove(&id)?; Some(q) })); } }
        for (id, s) in m {
            for f in ["env", "fds", "exe"] { if s.get(f).is_some() && !(f == "env" && s["env"].to_string().contains("@P")) { let id = id.clone(); v.push(Box::new(move |p| { let mut q = p.clone(); specs_at(&mut q, k)?.get_mut(&id)?.as_object_mut()?.remove(f)?; Some(q) })); } }
            let nf = s["fds"].as_array().map_or(0, |a| a.len());
            for j in (0..nf).rev() { let id = id.clone(); v.push(Box::new(move |p| { let mut q = p.clone(); let a = specs_at(&mut q, k)?.get_mut(&id)?.get_mut("fds")?.as_array_mut()?; if j >= a.len() { return None; } a.remove(j); Some(q) })); }
            let na = s["argv"].as_array().map_or(0, |a| a.len());
            for j in (1..na).rev() { if s["argv"][j].as_str().map_or(false, |x| x.starts_with("@P")) { continue; } let id = id.clone(); v.push(Box::new(move |p| { let mut q = p.clone(); let a = specs_at(&mut q, k)?.get_mut(&id)?.get_mut("argv")?.as_array_mut()?; if j >= a.len() { return None; } a.remove(j); Some(q) })); }
        }
    }
    // Programs.
    for (t, pr) in &p.programs {
        for j in (0..pr.0.len()).rev() { let t = t.clone(); v.push(Box::new(move |p| { let mut q = p.clone(); let x = q.programs.get_mut(&t)?; if j >= x.0.len() { return None; } x.0.remove(j); Some(q) })); }
        for j in 0..pr.0.len() {
            if let POp::Write { n, .. } = pr.0[j] { if n > 16 { let t = t.clone(); v.push(Box::new(move |p| { let mut q = p.clone(); match q.programs.get_mut(&t)?.0.get_mut(j)? { POp::Write { n, chunk, .. } => { *n /= 4; if *chunk > *n { *chunk = 0; } } _ => return None } Some(q) })); } }
        }
    }
    // Client habits and gaps.
    for k in 0..n { for j in 0..p.http[k].ops.len() { if !p.http[k].ops[j].how.plain() { v.push(Box::new(move |p| { let mut q = p.clone(); q.http.get_mut(k)?.ops.get_mut(j)?.how = How::default(); Some(q) })); } } }
    v
}
fn chunks(m: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut len = m / 2;
    while len >= 2 { let mut a = 0; while a < m { v.push((a, len)); a += len; } len /= 2; }
    for a in (0..m).rev() { v.push((a, 1)); }
    v
}
fn tidy(p: &mut Plan) {
    let s = serde_json::to_string(&p.http).unwrap() + &serde_json::to_string(&p.input).unwrap() + &serde_json::to_string(&p.server).unwrap() + &serde_json::to_string(&p.e2e).unwrap();
    p.programs.retain(|t, _| { let k = format!("@{}", t); s.match_indices(&k).any(|(i, _)| !s[i + k.len()..].starts_with(|c: char| c.is_ascii_digit())) });
    p.http.retain(|c| c.observer || !c.ops.is_empty());
}

pub fn shrink(p0: &Plan, test: &dyn Fn(&Plan) -> bool, secs: u64) -> (Plan, u32) {
    let t0 = Instant::now();
    let mut best = p0.clone();
    let mut tried = 0;
    loop {
        let mut progress = false;
        let mut k = 0;
        loop {
            let c = candidates(&best);
            if k >= c.len() || t0.elapsed().as_secs() >= secs { break; }
            let Some(mut q) = c[k](&best) else { k += 1; continue };
            tidy(&mut q);
            if q == best { k += 1; continue; }
            tried += 1;
            if test(&q) { best = q; progress = true; } else { k += 1; }
        }
        if !progress || t0.elapsed().as_secs() >= secs { break; }
    }
    (best, tried)
}
