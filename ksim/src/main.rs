//! ksim: deterministic simulation of the procstar supervisor with fault injection.
mod agentsrv; mod certs; mod check; mod e2e; mod gen; mod hist; mod http; mod kernel; mod oracle; mod oracle_agent;
mod oracle_e2e; mod plan; mod rng; mod run; mod shrink; mod spec; mod truth; mod vm;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let here = std::env::var("KSIM_HOME").unwrap_or_else(|_| "/verif".into());
    let paths = run::Paths { bin: opt("--bin").unwrap_or_else(|| "/repo/target/debug/procstar".into()), shim: opt("--shim").unwrap_or_else(|| format!("{}/.build/shim.so", here)), certs: opt("--certs").unwrap_or_else(|| format!("{}/ksim/certs", here)) };
    let n = |k: &str, d: u64| opt(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    match args.first().map(|s| s.as_str()) {
        Some("check") => std::process::exit(check::check(&check::Cfg { prop: args[1].clone(), paths, runs: n("--runs", 200), seed: n("--seed", 1), first: n("--first", 0), secs: n("--secs", 600), jobs: n("--jobs", 8) as usize, tier: opt("--tier").unwrap_or_else(|| "quick".into()), known: opt("--known"), evidence: opt("--evidence"), replays: opt("--replays").unwrap_or_else(|| format!("{}/replays", here)), survey: args.iter().any(|a| a == "--survey"), mix: n("--mix", 15) })),
        Some("gen") => println!("{}", serde_json::to_string_pretty(&gen::generate(&args[1], args[2].parse().unwrap())).unwrap()),
        Some("certs") => certs::make(&paths.certs),
        Some("replay") => std::process::exit(check::replay(&args[1], &paths)),
        Some("run") => check::show(&args[1], &paths),
        _ => { eprintln!("usage: ksim check PROP | gen PROP SEED | replay FILE | run FILE"); std::process::exit(2) }
    }
}
