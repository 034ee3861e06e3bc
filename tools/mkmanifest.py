"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real binary on a simulated kernel"
NOTE = ("Sampled, not proved: the real procstar executable runs under a simulated kernel, every run a pure function of one seed, and is judged against the kernel's own record. "
        "Trusts the simulated kernel to behave as Linux does, and interleaves threads at system calls only.")
CLAIMED = {p: (TECH, NOTE) for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C22 C23".split()}
PTECH = "deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real Python server on a simulated event loop and network"
PNOTE = ("Sampled, not proved: the real server code and websockets library run on a simulated clock and network, every run a pure function of one seed, with model agents and clients, and are judged against what was sent and received. "
         "Trusts the simulated transport and the model agents.")
CLAIMED |= {p: (PTECH, PNOTE) for p in "C18 C19 C20".split()}
CLAIMED["C21"] = ("deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real agent on a simulated kernel and the real Python server on a simulated event loop, joined by a simulated network",
    "Sampled, not proved: the real procstar executable and the real Python server with its clients, every run a pure function of one seed, judged against the kernel's own record of what ran. Trusts the simulated kernel and transport; one agent and one server.")
CLAIMED["C24"] = ("deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real binary on a simulated kernel, its clients being the real Python specification classes and HTTP client run in lock-step",
    "Sampled, not proved: the real procstar executable, the real Python classes and asynchronous client over a stub transport, every run a pure function of one seed, judged against the kernel's own record. The synchronous client is not covered.")
NOTYET = "the simulator for this part is not built yet"
m = {"version": 1, "setup_cmd": "bash check.sh build",
     "hooks": {"guard": "none", "enable": "No hook: the seam is the libc interface, taken by an LD_PRELOAD shim, and Python's event loop and transport interfaces.", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough", "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NOTYET})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
