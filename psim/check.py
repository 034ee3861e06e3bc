"""
check.py check PROP ...   search many runs for violations of a property
check.py replay FILE      repeat a recorded violation exactly
check.py show PROP:RUN    one run's history
"""
import argparse, copy, gc, hashlib, json, os, resource, select, signal, sys, time

real = time.monotonic
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = ["C18", "C19", "C20"]
CPU = 30  # seconds of processor time for a run, which takes a hundredth of one


def seed_for(seed, prop, k):
    return int.from_bytes(hashlib.sha256(f"{seed}:{prop}:{k}".encode()).digest()[:6], "big")


def plan_for(seed, prop, k, mix):
    import gen
    s = seed_for(seed, prop, k)
    p = prop
    if s % 100 < mix:
        p = PROPS[s // 100 % len(PROPS)]
    return gen.plan(p, s)


def kind(what):
    return what.split(":")[0]


def one(plan, ps, full=False):
    """Runs a plan, in this process."""
    import run, oracle
    sim = run.Sim(plan, ps).run()
    w = sim.w
    vs = oracle.violations(sim)
    order = hash(tuple((k, kw.get("link") or kw.get("conn") or kw.get("id") or kw.get("k")) for _, _, k, kw in w.hist[: w.hist_end]))
    r = {"violations": [[list(p), what, t] for p, what, t in vs], "digest": "%016x" % (hash((w.digest, repr([(o["t0"], o["t1"], o["out"]) for o in sim.ops]), w.now)) & (1 << 64) - 1),
         "order": order, "steps": w.steps, "sim_us": w.now - run.EPOCH, "faults": w.faults, "events": w.hist_end, "counts": sim.counts,
         "nontrivial": sim.counts.get("agents_admitted", 0) > 0 and w.hist_end > 30, "oops": [m for _, m in sim.oopses][:3]}
    if full:
        r["trace"] = [f"{w.rel(t)} {k} " + " ".join(f"{a}={b}" for a, b in kw.items()) for t, _, k, kw in w.hist[: w.hist_end]]
    return r


def isolated(plan, ps, full=False):
    """Runs a plan in a process of its own: every run starts alike."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(rd)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
            b = json.dumps(one(plan, ps, full), default=str).encode()
            while b:
                b = b[os.write(wr, b):]
            code = 0
        except BaseException:
            import traceback
            try:
                os.write(wr, b"!" + traceback.format_exc().encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(wr)
    out = bytearray()
    while b := os.read(rd, 1 << 16):
        out += b
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            return {"violations": [[PROPS, "the server stopped responding: a run did not end", 0]], "digest": "hang", "order": 0, "steps": 0, "sim_us": 0, "faults": {}, "events": 0, "counts": {}, "nontrivial": False, "oops": [], "trace": []}
        raise RuntimeError(f"run killed by signal {os.WTERMSIG(st)}")
    if out[:1] == b"!" or st:
        raise RuntimeError(out[1:].decode(errors="replace"))
    return json.loads(bytes(out))


def load(src):
    """The code under test; never from cached bytecode."""
    sys.path.insert(0, HERE)
    sys.pycache_prefix = os.path.join(HERE, ".nowhere")
    import run
    try:
        ps = run.install(src)
    except BaseException as e:
        return f"the server does not load: {type(e).__name__}: {e}"
    import gen, oracle
    gc.collect()
    gc.freeze()
    return ps


def known(path):
    ks = []
    if path and os.path.exists(path):
        for l in open(path):
            if l.startswith("KNOWN-FINDING: property="):
                p, r = l[len("KNOWN-FINDING: property="):].rstrip("\n").split(" ", 1)
                if r.startswith("kind="):
                    k, _, t = r[5:].partition(" :: ")
                    ks.append((p, k, t))
    return ks


# Minimising.
def smaller(plan):
    """Plans a bit smaller than this one, biggest steps first."""
    def with_(f):
        q = copy.deepcopy(plan)
        try:
            f(q)
        except (KeyError, IndexError):
            return None
        return q
    n = len(plan["agents"])
    if n > 1:
        for i in range(n):
            yield with_(lambda q: q["agents"].pop(i))
    m = len(plan["ops"])
    for step in (8, 4, 2, 1):
        if step < m or step == 1:
            for i in range(0, m, step):
                yield with_(lambda q: q["ops"].__delitem__(slice(i, i + step)))
    for i, a in enumerate(plan["agents"]):
        if a.get("then_us") is not None:
            yield with_(lambda q: q["agents"][i].update(then_us=None))
        if a.get("shut"):
            yield with_(lambda q: q["agents"][i].pop("shut"))
        for j in range(len(a["conns"]) - 1, -1, -1):
            if len(a["conns"]) > 1:
                yield with_(lambda q: q["agents"][i]["conns"].pop(j))
            c = a["conns"][j]
            for f in ("noise", "frames", "end", "then_ok"):
                if c.get(f):
                    yield with_(lambda q: q["agents"][i]["conns"][j].pop(f))
            for x in range(len(c.get("noise", []))):
                yield with_(lambda q: q["agents"][i]["conns"][j]["noise"].pop(x))
            if c.get("reg_us"):
                yield with_(lambda q: q["agents"][i]["conns"][j].update(reg_us=0))
        for j in range(len(a["procs"])):
            yield with_(lambda q: q["agents"][i]["procs"].pop(j))
        if a["delay_us"] != [0, 0]:
            yield with_(lambda q: q["agents"][i].update(delay_us=[0, 0]))
    for i, o in enumerate(plan["ops"]):
        if o.get("acts"):
            yield with_(lambda q: q["ops"][i].pop("acts"))
            for j in range(len(o["acts"])):
                yield with_(lambda q: q["ops"][i]["acts"].pop(j))
        for f in ("pad", "refuse", "cancel_us", "api"):
            if o.get(f):
                yield with_(lambda q: q["ops"][i].pop(f))
        if o.get("consume", {}).get("delay_us"):
            yield with_(lambda q: q["ops"][i]["consume"].update(delay_us=0))
    for f, v in (("stall_p", 0), ("frag", 0), ("jit_us", 0), ("cost_us", 0), ("window", 1 << 30), ("lat_us", 0)):
        if plan["sched"][f] != v:
            yield with_(lambda q: q["sched"].update({f: v}))


def shrink(plan, test, secs):
    t0 = real()
    tried = 0
    again = True
    while again:
        again = False
        for q in smaller(plan):
            if q is None:
                continue
            if real() - t0 > secs:
                return plan, tried
            tried += 1
            if test(q):
                plan, again = q, True
                break
    return plan, tried


def worker(a, ps, j, wr):
    t0 = real()
    f = os.fdopen(wr, "w")
    for k in range(a.first + j, a.first + a.runs, a.jobs):
        if real() - t0 > a.secs:
            break
        try:
            p = plan_for(a.seed, a.prop, k, a.mix)
            r = isolated(p, ps)
            if k % a.again == 0:
                r["again"] = isolated(p, ps)["digest"] == r["digest"]
            r["k"] = k
        except Exception as e:
            r = {"k": k, "error": str(e)[-1500:]}
        f.write(json.dumps(r) + "\n")
        f.flush()
    f.close()
    os._exit(0)


def check(a):
    ps = load(a.src)
    if isinstance(ps, str):
        # Then none of what it is to do holds.
        print(ps)
        os.makedirs(a.replays, exist_ok=True)
        f = os.path.join(a.replays, f"{a.prop}-py-load.json")
        json.dump({"psim": True, "property": a.prop, "plan": None, "violation": ps, "kind": kind(ps), "digest": "", "trace": []}, open(f, "w"), indent=1)
        print(f"VIOLATION property={a.prop} replay={f}")
        if a.evidence:
            json.dump({"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": 0, "violations": 1, "assumptions": [],
                       "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": "the server was loaded, which failed", "samples": [ps]}}, open(a.evidence, "w"), indent=1)
        return 1
    ks = known(a.known)
    t0 = real()
    pipes, pids = {}, []
    for j in range(a.jobs):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            for p in pipes:
                os.close(p)
            worker(a, ps, j, wr)
        os.close(wr)
        pipes[rd] = b""
        pids.append(pid)
    A = {"runs": 0, "steps": 0, "sim": 0, "events": 0, "faults": {}, "counts": {}, "inter": set(), "digests": set(), "again": 0, "diverged": [], "samples": [], "viol": [], "survey": {}, "errors": [], "known": {}}
    stop = False
    while pipes:
        for rd in select.select(list(pipes), [], [])[0]:
            b = os.read(rd, 1 << 16)
            if not b:
                os.close(rd)
                del pipes[rd]
                continue
            *ls, pipes[rd] = (pipes[rd] + b).split(b"\n")
            for l in ls:
                add(A, json.loads(l), a, ks)
        if len(A["viol"]) >= 3 and not a.survey and not stop:
            stop = True
            for p in pids:
                try:
                    os.kill(p, signal.SIGTERM)
                except ProcessLookupError:
                    pass
    for p in pids:
        os.waitpid(p, 0)
    wall = real() - t0
    if a.survey:
        for k, (n, run, what) in sorted(A["survey"].items(), key=lambda x: -x[1][0]):
            print(f"{n:5} run {run:5} {k} | {what[:260]}")
        print(f"{A['runs']} runs in {wall:.1f}s; diverged {A['diverged']} of {A['again']}; faults {A['faults']}; counts {A['counts']}; errors {A['errors'][:2]}")
        return 0
    for e in A["errors"][:3]:
        print(f"psim: internal error in run {e[0]}: {e[1]}", file=sys.stderr)
    code = nviol = 0
    for k, vs, digest in sorted(A["viol"]):
        p = plan_for(a.seed, a.prop, k, a.mix)
        kd = kind(vs[0][1])

        def test(q):
            try:
                r = isolated(q, ps)
            except RuntimeError:
                return False
            return any(a.prop in v[0] and kind(v[1]) == kd for v in r["violations"])
        if not test(p):
            print(f"psim: run {k} reported \"{vs[0][1]}\" but repeating it did not", file=sys.stderr)
            continue
        q, tried = shrink(p, test, 45)
        r = isolated(q, ps, True)
        what = next(v[1] for v in r["violations"] if a.prop in v[0] and kind(v[1]) == kd)
        os.makedirs(a.replays, exist_ok=True)
        f = os.path.join(a.replays, f"{a.prop}-py-{p['seed']:x}.json")
        json.dump({"psim": True, "property": a.prop, "plan": q, "violation": what, "kind": kd, "digest": r["digest"], "minimised_with_runs": tried, "trace": r["trace"]}, open(f, "w"), indent=1)
        print(what)
        print(f"VIOLATION property={a.prop} replay={f}")
        nviol = code = 1
        break
    for i, (p, k, t) in enumerate(ks):
        if p == a.prop:
            print(f"KNOWN-FINDING: property={p} {t} (seen in {A['known'].get(i, 0)} runs)")
    if a.evidence:
        ev = {
            "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": wall, "violations": nviol,
            "assumptions": ["the simulated transport behaves as asyncio's TLS transport does", "agents are as in psim/agent.py: process ids are unique among agents, and an agent does not restart under its id",
                            "a turn of the event loop is atomic, as it is in asyncio"],
            "coverage": {
                "evaluations": A["runs"], "distinct_nontrivial": len(A["digests"]),
                "rule": "one evaluation is one simulated execution of the real Python server from one seed (agents, clients, network, faults); distinct by the hash of its whole history; non-trivial if at least one agent was admitted and over 30 events happened",
                "samples": A["samples"], "runs_per_hour": int(A["runs"] / max(wall, 1e-3) * 3600), "seeds": f"sha256({a.seed}:{a.prop}:{a.first}..{a.first + A['runs']})",
                "simulated_seconds": A["sim"] / 1e6, "loop_turns": A["steps"], "events": A["events"], "faults_injected": A["faults"], "judged": A["counts"],
                "distinct_interleavings": len(A["inter"]), "interleaving_measure": "hash of the order of all events (connections, messages, updates, calls) without their times",
                "determinism": {"runs_repeated": A["again"], "diverged": len(A["diverged"])},
                "real": "procstar.agent.server, conn, proc and procstar.proto, the websockets library, and asyncio's tasks, futures, queues and timeouts",
                "stub": "the event loop's clock and selector, TCP and TLS, the agents and the server's clients",
            },
        }
        os.makedirs(os.path.dirname(a.evidence), exist_ok=True)
        json.dump(ev, open(a.evidence, "w"), indent=1)
    print(f"{a.prop}: {A['runs']} runs ({len(A['digests'])} non-trivial, {len(A['inter'])} interleavings) in {wall:.1f} s, {sum(A['faults'].values())} faults, {'VIOLATED' if nviol else 'held'}")
    if not code and (A["errors"] and len(A["errors"]) > A["runs"] // 100 or not A["runs"]):
        return 4
    return code


def add(A, r, a, ks):
    if "error" in r:
        A["errors"].append((r["k"], r["error"]))
        return
    A["runs"] += 1
    A["steps"] += r["steps"]
    A["sim"] += r["sim_us"]
    A["events"] += r["events"]
    for d in ("faults", "counts"):
        for k, n in r[d].items():
            A[d][k] = A[d].get(k, 0) + n
    A["inter"].add(r["order"])
    if r["nontrivial"]:
        A["digests"].add(r["digest"])
        if len(A["samples"]) < 3:
            A["samples"].append({"run": r["k"], "seed": seed_for(a.seed, a.prop, r["k"]), "events": r["events"], "simulated_s": r["sim_us"] / 1e6, "faults": r["faults"], "judged": r["counts"], "digest": r["digest"]})
    if "again" in r:
        A["again"] += 1
        if not r["again"]:
            A["diverged"].append(r["k"])
    if a.survey:
        for ps, what, t in r["violations"]:
            e = A["survey"].setdefault(f"{'+'.join(ps)} {kind(what)}", [0, r["k"], what])
            e[0] += 1
        return
    mine = []
    for v in r["violations"]:
        if a.prop in v[0]:
            i = next((i for i, x in enumerate(ks) if x[0] == a.prop and x[1] == kind(v[1])), None)
            if i is None:
                mine.append(v)
            else:
                A["known"][i] = A["known"].get(i, 0) + 1
    if mine:
        A["viol"].append((r["k"], mine, r["digest"]))


def replay(a):
    ps = load(a.src)
    j = json.load(open(a.file))
    if isinstance(ps, str):
        print(ps)
        print(f"VIOLATION property={j['property']} replay={a.file}")
        return 1
    if j["plan"] is None:
        print("the server loads")
        return 0
    r = isolated(j["plan"], ps, True)
    print(f"digest {r['digest']} (recorded {j['digest']})")
    for p, what, t in r["violations"]:
        print("+".join(p), what)
    if any(j["property"] in v[0] for v in r["violations"]):
        print(f"VIOLATION property={j['property']} replay={a.file}")
        return 1
    return 0


def show(a):
    ps = load(a.src)
    if os.path.exists(a.file):
        p = json.load(open(a.file))["plan"]
    else:
        prop, k = a.file.split(":")
        p = plan_for(a.seed, prop, int(k), a.mix)
    r = isolated(p, ps, True)
    print(json.dumps(p))
    for l in r["trace"]:
        print(l)
    print(r["oop" + "s"], r["faults"], r["counts"], r["digest"])
    for v in r["violations"]:
        print("+".join(v[0]), v[1])
    return 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("file")
    ap.add_argument("--src", default="/repo/python")
    ap.add_argument("--runs", type=int, default=1000)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--secs", type=float, default=300)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--mix", type=int, default=20)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--known")
    ap.add_argument("--evidence")
    ap.add_argument("--replays", default="/tmp/psim-replays")
    ap.add_argument("--again", type=int, default=40)
    ap.add_argument("--survey", action="store_true")
    a = ap.parse_args()
    a.prop = a.file
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit({"check": check, "replay": replay, "show": show}[a.cmd](a))
