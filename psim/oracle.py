"""
What must hold of a finished run.  violations(sim) gives (property, what, when).

Everything here is judged from outside the server: what each model agent sent
and received, when the network gave it to the server, and what the server's
clients and its connection table showed.
"""
from world import EPOCH

MS, S = 1000, 1_000_000
INF = 1 << 60
TERMINAL = {"end": "C19", "ProcessUnknownError": "C19", "AgentMessageError": "C19", "ConnectionTimeoutError": "C19 C20"}
QUIET = 18 * S            # the server's keepalive takes longer than this to give up
NOTICE = 90 * S           # a silent connection is noticed by then
CLOSE = 50 * S            # and one that ended or is closed is closed by then


class Oracle:
    def __init__(self, sim):
        self.sim = sim
        self.w = sim.w
        self.out = []
        self.seen = set()
        self.counts = sim.counts = {}
        self.horizon = self.w.horizon
        self.stalls = self.w.stalls
        self.hist = self.w.hist[: self.w.hist_end]
        s = self.w.sched
        self.flight = s["lat_us"] + s["jit_us"] + 1
        # Getting what may be buffered for an agent to it.
        self.drain = (2 + 70000 // s["window"]) * 2 * self.flight + S

    def bad(self, props, what, t):
        k = what.split(":")[0]
        if k not in self.seen:
            self.seen.add(k)
            self.out.append((props.split(), what, t))

    def did(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def late(self, t, need=200 * MS):
        """When something due at t, taking the loop a moment, is surely done."""
        end = t + need
        for a, d in self.stalls:
            if a + d < t:
                continue
            if a > end:
                break
            end += d
        return end

    def rel(self, t):
        return self.w.rel(t)

    # What is known of each connection.
    def facts(self):
        sim = self.sim
        self.restarts = [(t, k) for t, _, k, kw in self.hist if k in ("restart", "stopped", "restarted")]
        self.links = []
        self.adm = {}
        for a in sim.agents:
            self.adm[a.id] = []
            for l in a.links:
                c = l.conn
                l.tA = c.fed_at(l.reg[0]) if l.reg else None
                l.t_bad = None
                if l.bad_off is not None:
                    for o, t, _ in c.feeds:
                        if o > l.bad_off:
                            l.t_bad = t
                            break
                l.restarted = None
                for t, k in self.restarts:
                    if k == "restart" and c.t_arrived is not None and t >= c.t_arrived and (c.t_lost is None or t <= c.t_lost):
                        l.restarted = t
                        break
                l.refused = c.t_arrived is None
                l.t_end_fed = min([t for t in (c.t_fin, c.t_rst) if t is not None], default=None)
                l.t_close_fed = None
                self.links.append(l)
                if l.tA is not None and a.token == sim.plan["token"]:
                    self.adm[a.id].append(l)
        for a in sim.agents:
            ls = self.adm[a.id]
            ls.sort(key=lambda l: l.tA)
            for l in a.links:
                # When the server may first have a reason to end it; the reason.
                r = []
                c = l.conn
                if l.t_end_fed is not None:
                    r.append(l.t_end_fed)
                if l.sent_close is not None:
                    r.append(l.sent_close)
                if l.t_bad is not None:
                    r.append(l.t_bad)
                if l.restarted is not None:
                    r.append(l.restarted)
                if l.t_hole is not None:
                    how = l.hole_how
                    if how in ("hole", "hold", "hold_up", "stall", "zombie"):
                        r.append(l.t_hole + QUIET - 2 * self.flight)
                    elif how != "close":
                        r.append(l.t_hole)
                if l.end is not None and l.end[1] not in ("fin", "rst", "closed", "cut"):
                    r.append(l.end[0])
                l.loss_min = min(r, default=INF)
                later = [m for m in ls if l.tA is not None and m is not l and m.tA > l.tA]
                l.next = later[0] if later else None
                if l in ls and l.next is not None:
                    l.loss_min = min(l.loss_min, l.next.tA)
                l.t_lost = c.t_lost if c.t_lost is not None else INF
                # Messages that got there before this cannot be lost.
                l.sure = l.t_lost
                for t in (c.t_rst, l.t_bad, l.restarted, l.next.tA if l.next else None):
                    if t is not None:
                        l.sure = min(l.sure, t)
                if l.t_hole is not None and l.hole_how in ("hole", "hold", "hold_up", "stall", "zombie", "cut"):
                    l.sure = min(l.sure, l.t_hole + (0 if l.hole_how == "cut" else QUIET - 2 * self.flight))
                if c.paused is not None:
                    l.sure = min(l.sure, c.paused)
                # Served long enough to be surely admitted.
                l.surely = l in ls and not l.late_reg and self.late(l.tA) < min(l.loss_min, l.t_lost)
                # Messages as fed to the server.
                l.msgs = []
                if l in ls:
                    o = None
                    for off, name, m, t in l.up:
                        f = c.fed_at(off)
                        if m is not None and f is not None and off > l.reg[0]:
                            l.msgs.append((f, off, m))

    def check(self):
        sim = self.sim
        for a in sim.agents:
            for l in a.links:
                l.hole_how = l.__dict__.get("hole_how")
                l.late_reg = l.conn.t_arrived is None or not l.reg or (l.conn.fed_at(l.reg[0]) or INF) - l.conn.t_arrived > 55 * S
        if sim.crash:
            self.bad("C18 C19 C20", f"the server crashed: {sim.crash}", self.horizon)
            return self.out
        self.facts()
        self.did("connections", len(self.links))
        self.did("agents_admitted", sum(len(x) for x in self.adm.values()))
        self.did("returns", sum(max(0, len(x) - 1) for x in self.adm.values()))
        self.table()
        self.connections()
        self.clients()
        self.requests()
        self.streams()
        return self.out

    # The connection table, and giving agents up.
    def table(self):
        sim = self.sim
        rt = sim.plan["reconnect_timeout_us"]
        byid = {a.id: a for a in sim.agents}
        self.pops = {}
        pops = [(t, kw["id"]) for t, _, k, kw in self.hist if k == "popped"]
        self.pop_since = {(kw["id"], t): kw["since"] for t, _, k, kw in self.hist if k == "popped"}
        for t, id in pops:
            self.pops.setdefault(id, []).append(t)
        for t, _, k, kw in self.hist:
            if k not in ("added", "open"):
                continue
            if not any(l.tA <= t for l in self.adm.get(kw["id"], ())):
                self.bad("C18", f"a connection that was not admitted is in the table: {kw['id']} at {self.rel(t)}", t)
        for id, ts in self.pops.items():
            if id not in byid:
                continue
            for t in ts:
                self.did("given_up")
                ls = [l for l in self.adm[id] if l.tA <= t]
                if not ls:
                    continue
                l = ls[-1]
                done = self.t_done(l)
                if done is not None and done <= t:
                    continue
                if rt is None:
                    self.bad("C20", f"an agent was given up without a reconnect timeout: {id} at {self.rel(t)}", t)
                    continue
                # Those registering at the same moment may not have been seen.
                i = len(ls) - 1
                while i > 0 and not ((ls[i].surely or ls[i].down) and self.late(ls[i].tA) < t):
                    i -= 1
                lo = min(m.loss_min for m in ls[i:]) + rt
                if t < lo - 2 * MS:
                    self.bad("C20", f"an agent was given up too early: {id} at {self.rel(t)}, its latest connection {l.name} could be lost at {self.rel(l.loss_min)} at the earliest, with a reconnect timeout of {rt / 1e6} s", t)
        for a in sim.agents:
            ls = self.adm[a.id]
            for l in ls:
                if not l.surely or l.t_lost == INF:
                    continue
                done = self.t_done(l)
                if rt is None and not (done and self.late(done) < l.sure):
                    continue
                due = self.late(self.late(l.t_lost) + (rt or 0))
                if done and self.late(done) < l.sure:
                    due = self.late(l.t_lost)
                if any(m.tA <= due + S for m in ls if m.tA > l.tA):
                    continue
                if due < self.horizon and not any(l.tA <= t <= due for t in self.pops.get(a.id, ())):
                    self.bad("C20", f"an agent that did not come back was not given up: {a.id}, its latest connection {l.name} was lost at {self.rel(l.t_lost)} and it should be gone by {self.rel(due)}", due)

    def t_done(self, l):
        for f, _, m in l.msgs:
            if m["type"] == "ShutDown" and m["shutdown_state"] == "done":
                return f
        if l.reg and l.reg[1]["shutdown_state"] == "done":
            return l.tA
        return None

    def t_idle(self, a):
        """When the server got to know that it is shutting down, surely."""
        ts = []
        for l in self.adm[a.id]:
            if l.reg[1]["shutdown_state"] != "active" and l.surely:
                ts.append(l.tA)
            for f, _, m in l.msgs:
                if m["type"] == "ShutDown" and m["shutdown_state"] != "active" and l.surely and self.late(f) < l.sure:
                    ts.append(self.late(f))
        return min(ts, default=INF)

    # Each connection.
    def connections(self):
        for l in self.links:
            a = l.agent
            c = l.conn
            if l.refused:
                continue
            if l not in self.adm[a.id]:
                # One that comes back in another group is told that it is registered, at first.
                for t, _, m in l.down[l.plan["reg"] == "other_group" and l.down[:1] != [] and l.down[0][2].get("type") == "Registered":]:
                    self.bad("C18", f"an agent that was not admitted was sent a message: {l.name} ({l.plan['reg']}) got {m.get('type')} at {self.rel(t)}", t)
                # It must be got rid of.
                due = None
                if l.t_end_fed is not None:
                    due = l.t_end_fed + CLOSE
                elif l.t_bad is not None:
                    due = l.t_bad + CLOSE
                elif l.plan["reg"] not in ("ok", "tcp_silent", "http_partial") and l.http_off is not None and c.fed_at(l.http_off) is not None:
                    due = c.fed_at(l.http_off) + 61 * S + CLOSE
                if due is not None and self.late(due) < self.horizon and l.t_lost > self.late(due):
                    self.bad("C18", f"an agent that did not register was kept: {l.name} ({l.plan['reg']}), connected at {self.rel(c.t_arrived)}", due)
                continue
            for i, (t, _, m) in enumerate(l.down):
                if (i == 0) != (m["type"] == "Registered"):
                    self.bad("C18", f"{'a message before' if i == 0 else 'a second'} Registered: {l.name} got {m['type']} at {self.rel(t)}", t)
            if l.surely and not l.down:
                due = self.late(l.tA) + 2 * self.flight + 100 * MS
                if due < min(l.loss_min, self.horizon) and (l.t_hole is None or due < l.t_hole) and (not l.end or due < l.end[0]):
                    self.bad("C18", f"an agent was not told that it is registered: {l.name}, which registered at {self.rel(l.tA)}", due)
            if not l.late_reg and l.t_lost < l.loss_min:
                self.bad("C18 C19 C20", f"a good connection was ended by the server: {l.name} at {self.rel(l.t_lost)}", l.t_lost)
            if l.got_close is not None and not l.late_reg and l.t_got_close < l.loss_min:
                self.bad("C18 C19 C20", f"a good connection was ended by the server: {l.name} at {self.rel(l.t_got_close)} (code {l.got_close})", l.t_got_close)
            # Its end is noticed.
            dues = []
            if l.t_end_fed is not None:
                dues.append(l.t_end_fed + CLOSE)
            if l.t_bad is not None:
                dues.append(l.t_bad + CLOSE)
            if l.next is not None:
                dues.append(l.next.tA + CLOSE)
            if l.t_hole is not None and l.hole_how == "hole":
                dues.append(l.t_hole + NOTICE)
            due = self.late(min(dues, default=INF)) if c.paused is None else INF
            if due < self.horizon and l.t_lost > due:
                self.bad("C18", f"the end of a connection was not noticed: {l.name}, due {self.rel(due)}", due)
            # Coming back.
            if l.surely and self.late(l.tA) < l.sure:
                for s in self.sim.streams:
                    p = s["id"]
                    if s["conn"] != a.id or p not in l.reg[1]["proc_ids"]:
                        continue
                    if any(s["t"] <= t and e is not l and t <= self.late(l.tA) for t, k, _, e in self.ends(a, p)):
                        continue
                    if s["how"] != "start" or s["t"] >= l.tA or s["end"] is not None and s["end"][0] < self.late(l.tA + S, 0) or s["stopped"]:
                        continue
                    due = self.late(l.tA) + self.drain
                    if due >= min(l.loss_min, self.horizon, l.t_lost) or l.t_hole is not None and l.t_hole <= due or l.end and l.end[0] <= due:
                        continue
                    if not any(m["type"] == "ProcResultRequest" and m["proc_id"] == p and t <= due for t, _, m in l.down):
                        self.bad("C19 C20", f"a returned agent was not asked for the result of its process: {p} on {l.name}, registered at {self.rel(l.tA)}", due)

    def maybe_open(self, a, t0, t1):
        """Whether the server may have held it open and active at some time."""
        if self.t_idle(a) < t0 and not self.stale_active(a):
            return False
        return any(l.tA <= t1 and l.t_lost >= t0 for l in self.adm[a.id])

    def stale_active(self, a):
        return False

    def surely_open(self, a, t0, t1):
        """Whether it was surely open and active all the time."""
        if a.t_shut is not None and a.t_shut <= t1:
            return False
        return any(l.surely and self.late(l.tA) <= t0 and min(l.loss_min, l.t_hole or INF, l.t_lost, (l.end or (INF,))[0]) > t1
                   for l in self.adm[a.id])

    # What clients of the server got.
    def clients(self):
        sim = self.sim
        byid = {a.id: a for a in sim.agents}
        for r in sim.ops:
            op, o, out = r["op"], r["op"]["op"], r["out"]
            self.did(f"client_{o}")
            self.did(f"client_{'hangs' if out is None else out[0] if out[0] != 'error' else out[1]}")
            t0, t1 = r["t0"], r["t1"]
            if o == "restart":
                continue
            if o in ("start", "reconnect"):
                to = op["timeout_us"] + self.late(t0, 1 * MS) - t0
                if o == "start":
                    group = [a for a in sim.agents if a.plan["group"] == op["group"]]
                else:
                    group = [a for a in sim.agents if a.id == op["conn"]]
                what = f"{op.get('api', 'request_start') if o == 'start' else 'reconnect'}({op['id']}) at {self.rel(t0)}"
                fail = "NoOpenConnectionInGroup" if o == "start" else "NoConnectionError"
                if out is None:
                    due = self.late(t0 + to)
                    if op.get("api") == "start" or any(a.links and any(l.conn.paused for l in a.links) for a in group):
                        # Waits for the agent.
                        due = INF if any(l.conn.paused for l in self.links if l.agent in group) or self.waits_ok(r, group) else due
                    if due < self.horizon:
                        self.bad("C18", f"a caller was left waiting: {what} with a timeout of {op['timeout_us'] / 1e6} s", due)
                elif out[0] == "ok":
                    a = byid.get(out[1])
                    if a not in group:
                        self.bad("C18", f"work was sent to another group: {what} went to {out[1]}", t1)
                    elif o == "start" and not self.maybe_open(a, t0, t1):
                        self.bad("C18", f"work was sent to an agent that is not open: {what} went to {a.id}", t1)
                    elif o == "reconnect" and not any(l.tA <= t1 and l.t_lost >= t0 for l in self.adm[a.id]):
                        self.bad("C18", f"reconnected to an agent that is not open: {what}", t1)
                elif out[0] == "error" and out[1] == fail:
                    if t1 < t0 + op["timeout_us"] - 2 * MS:
                        self.bad("C18", f"a caller was not left its time to wait: {what} failed at {self.rel(t1)} with a timeout of {op['timeout_us'] / 1e6} s", t1)
                    if t1 > self.late(t0 + to):
                        self.bad("C18", f"a caller waited too long: {what} failed at {self.rel(t1)} with a timeout of {op['timeout_us'] / 1e6} s", t1)
                    for a in group:
                        need = self.late(t0 + to, 0)
                        if o == "start" or a.t_shut is None or a.t_shut > need:
                            if self.was_open(a, t0, t0 + op["timeout_us"]):
                                self.bad("C18", f"an open agent was not found: {what} failed with {out[1]}, though {a.id} was open", t1)
                elif out[0] == "error":
                    ok = {"WebSocketNotOpen", "NotConnectedError"}
                    if op.get("api") == "start":
                        ok |= {"ProcessUnknownError", "AgentMessageError", "ConnectionTimeoutError"}
                    if o == "reconnect" and any(i == op["id"] for a in sim.agents if a.id != op["conn"] for i, _ in a.plan["procs"]):
                        # It knows one of that name elsewhere.
                        ok |= {"ProcessUnknownError"}
                    if out[1] not in ok:
                        self.bad("C19", f"a client got an odd error: {what}: {out[1]}: {out[2]}", t1)
                    elif out[1] in ("WebSocketNotOpen", "NotConnectedError"):
                        if not any(l.tA <= t1 and min(l.loss_min, l.t_hole or INF) <= t1 for a in group for l in self.adm[a.id]):
                            self.bad("C18", f"an open agent was not used: {what} failed with {out[1]}", t1)
                        if o == "start":
                            for a in group:
                                if str(out[2]).endswith(f": {a.id}") and not self.maybe_open(a, t0, t1):
                                    self.bad("C18", f"an agent that is not open was chosen: {what} failed with {out[1]} for {a.id}", t1)
                    elif op.get("api") == "start":
                        self.start_error(r, group, what)
            elif o == "await_delete":
                self.deleting(r, byid)
            elif out is None:
                if self.horizon - t0 > 2 * NOTICE and not any(l.conn.paused for l in self.links if l.agent.id in {s["conn"] for s in sim.streams if s["id"] == r["id"]}):
                    self.bad("C18", f"a caller was left waiting: {o}({r['id']}) at {self.rel(t0)}", t0)
            elif out[0] == "error":
                if out[1] not in ("WebSocketNotOpen", "NotConnectedError") or o in ("result", "fd"):
                    self.bad("C19", f"a client got an odd error: {o}({r['id']}) at {self.rel(t0)}: {out[1]}: {out[2]}", t1)

    def deleting(self, r, byid):
        """Waiting for a process to be deleted, beside the reader of its updates."""
        s, out = self.sim.streams[r["of"]], r["out"]
        a = byid.get(s["conn"])
        if a is None or out is not None and out[0] == "cancelled":
            return
        what = f"delete({r['id']}) at {self.rel(r['t0'])}"
        if out is None:
            e = s["end"]
            if e is not None and self.late(max(e[0], r["t0"])) < self.horizon and not any(l.conn.paused is not None for l in a.links if l.conn):
                self.bad(TERMINAL.get(e[2], "C19"), f"a waiter was not released: {what}, though the stream ended at {self.rel(e[0])} with {e[2]}", self.horizon)
            return
        how = "end" if out[0] == "ok" else out[1]
        if how in ("WebSocketNotOpen", "NotConnectedError"):
            return
        if how not in TERMINAL:
            self.bad("C19", f"a client got an odd error: {what}: {out[1]}: {out[2]}", r["t1"])
        elif how == "AgentMessageError":
            if not any(f <= r["t1"] and m["type"] == "RequestError" and mentions(m, r["id"]) for l in self.adm[a.id] for f, _, m in l.msgs):
                self.bad("C19", f"a stream ended for no reason: {what} at {self.rel(r['t1'])} with {how}", r["t1"])
        elif not any((t if e else self.pop_since[a.id, t]) <= r["t1"] and k == how for t, k, _, e in self.ends(a, r["id"])):
            self.bad(TERMINAL[how], f"a stream ended for no reason: {what} at {self.rel(r['t1'])} with {how}", r["t1"])

    def waits_ok(self, r, group):
        """start() waits for the first news of its process, or an end."""
        id = r["op"]["id"]
        for a in group:
            for l in self.adm[a.id]:
                for t, _, m in l.down:
                    if m["type"] == "ProcStartRequest" and id in m["specs"] and t >= r["t0"]:
                        # It got there: an answer must have come back.
                        for f, _, x in l.msgs:
                            if f >= t and mentions(x, id) and self.late(f) < min(l.sure, self.horizon - S):
                                return False
                        if l.t_lost == INF and l.t_hole is None and l.end is None and self.horizon - t > 10 * S:
                            return False
                        return True
        return True

    def start_error(self, r, group, what):
        """start() failed by the stream's end: there must have been one."""
        id = r["op"]["id"]
        if not any(r["t0"] - 2 * MS <= self.late(t) and (t if e else self.pop_since[a.id, t]) <= r["t1"] and k == r["out"][1] for a in group for t, k, _, e in self.ends(a, id)):
            self.bad("C19", f"a start failed for no reason: {what}: {r['out'][1]}", r["t1"])

    def was_open(self, a, t0, t1):
        """Whether it was surely open for a moment in between."""
        for l in self.adm[a.id]:
            if not l.surely:
                continue
            lo = max(self.late(l.tA), t0)
            hi = min(l.loss_min, l.t_hole or INF, l.t_lost, (l.end or (INF,))[0], a.t_shut or INF)
            # Long enough to be seen by someone waiting.
            if lo <= t1 and hi > self.late(lo):
                return True
        return False

    # What agents were asked to do.
    def requests(self):
        sim = self.sim
        starts = {}
        for r in sim.ops:
            if r["op"]["op"] == "start":
                starts.setdefault(r["op"]["id"], []).append(r)
        owner = {}
        for s in sim.streams:
            owner.setdefault(s["id"], set()).add(s["conn"])
        got = {}
        for a in sim.agents:
            for l in a.links:
                for t, _, m in l.down:
                    ty = m["type"]
                    if ty == "ProcStartRequest":
                        for id in m["specs"]:
                            # One tries again only once refused.
                            r = next((r for r in reversed(starts.get(id, ())) if r["t0"] <= t), None)
                            if r is None or r["op"]["group"] != a.plan["group"]:
                                self.bad("C18", f"an agent was asked to start what is not its to start: {a.id} got {id} at {self.rel(t)}", t)
                            elif r["out"] and r["out"][0] == "ok" and r["out"][1] != a.id:
                                self.bad("C18", f"a process was started elsewhere: {id} on {a.id}, though the client was told {r['out'][1]}", t)
                            elif r["out"] and r["out"][0] == "error" and r["out"][1] == "NoOpenConnectionInGroup":
                                self.bad("C18", f"a start that failed was sent: {id} to {a.id} at {self.rel(t)}", t)
                            elif m["specs"][id].get("argv") != ["x"] or m["specs"][id].get("dur") != r["op"]["dur_us"] or len(m["specs"][id].get("pad", "")) != r["op"].get("pad", 0):
                                self.bad("C18", f"an agent was asked to start something else: {id} on {a.id}", t)
                            k = r and (id, r["t0"])
                            if k in got:
                                self.bad("C18", f"a start was sent twice: {id} to {l.name} and {got[k]}", t)
                            got[k] = l.name
                    elif ty == "ProcResultRequest":
                        pass
                    elif "proc_id" in m and a.id not in owner.get(m["proc_id"], {a.id}):
                        self.bad("C18", f"a request went to another agent: {ty} of {m['proc_id']} to {a.id}", t)
        for id, r in ((id, r) for id, rs in starts.items() for r in rs):
            if r["out"] and r["out"][0] == "ok" and (id, r["t0"]) not in got:
                a = next(a for a in sim.agents if a.id == r["out"][1])
                if self.surely_open(a, r["t0"], self.late(r["t1"]) + self.drain) and not any(l.conn.paused for l in a.links):
                    self.bad("C18", f"a start was not sent: {id} to {a.id} at {self.rel(r['t0'])}", r["t1"])
        # Requests of clients get there, once.
        kinds = {"fd": "ProcFdDataRequest", "signal": "ProcSignalRequest", "delete": "ProcDeleteRequest"}
        want = {}
        for r in sim.ops:
            o = r["op"]["op"]
            if o in kinds:
                want.setdefault((kinds[o], r["id"]), []).append(r)
        for (ty, id), all_rs in want.items():
            for a in sim.agents:
                if a.id not in owner.get(id, ()):
                    continue
                rs = [r for r in all_rs if r["conn"] == a.id]
                n = sum(1 for l in a.links for _, _, m in l.down if m["type"] == ty and m["proc_id"] == id)
                most = len(rs) + (sum(2 for s in sim.streams if s["id"] == id) + sum(1 for r in sim.ops if r["op"]["op"] == "await_delete" and r["id"] == id) if ty == "ProcDeleteRequest" else 0)
                least = sum(1 for r in rs if r["out"] and r["out"][0] == "ok" and self.surely_open(a, r["t0"], self.late(r["t1"]) + self.drain)
                            and not any(l.conn.paused for l in a.links) and self.live(r, a))
                if n > most:
                    self.bad("C18", f"a request was sent twice: {ty} of {id}", self.horizon)
                if rs and n < least and self.horizon - max(r["t0"] for r in rs) > 10 * S:
                    self.bad("C18", f"a request was not sent: {ty} of {id}, {n} of {least}", self.horizon)
                for r in rs:
                    if r["out"] and r["out"][0] == "error" and r["out"][1] in ("WebSocketNotOpen", "NotConnectedError") and self.live(r, a) and self.surely_open(a, r["t0"], r["t1"]):
                        self.bad("C18", f"an open agent was not used: {r['op']['op']}({id}) at {self.rel(r['t0'])} failed with {r['out'][1]}", r["t1"])

    def live(self, r, a):
        """Whether the agent was not given up since the process was started."""
        t = min((o["t0"] for o in self.sim.ops if o.get("stream") is not None and self.sim.streams[o["stream"]]["id"] == r["id"]), default=0)
        return not any(p >= t and p <= r["t0"] for p in self.pops.get(a.id, ()))

    # Ends that processes met: (time, kind, surely, order).
    def ends(self, a, id):
        k = (a.id, id)
        if k in self.ends_memo:
            return self.ends_memo[k]
        es = []
        for l in self.adm[a.id]:
            if id not in l.reg[1]["proc_ids"]:
                es.append((l.tA, "ProcessUnknownError", l.surely, l))
            for f, off, m in l.msgs:
                ty = m["type"]
                sure = l.surely and self.late(f) < l.sure and (l.t_end_fed is None or self.late(l.tA) < l.t_end_fed)
                if ty == "ProcDelete" and m["proc_id"] == id:
                    es.append((f, "end", sure, l))
                elif ty == "ProcUnknown" and m["proc_id"] == id:
                    es.append((f, "ProcessUnknownError", sure, l))
                elif ty == "RequestError" and isinstance(m.get("msg"), dict) and id in m["msg"].get("specs", ()):
                    es.append((f, "AgentMessageError", sure, l))
        for t in self.pops.get(a.id, ()):
            es.append((t, "ConnectionTimeoutError", True, None))
        es.sort(key=lambda e: e[0])
        self.ends_memo[k] = es
        return es

    ends_memo = None

    # Updates.
    def streams(self):
        sim = self.sim
        self.ends_memo = self.ends_memo if self.ends_memo is not None else {}
        byid = {a.id: a for a in sim.agents}
        # What the agents said of each process, by serial.
        said = {}
        for a in sim.agents:
            for l in a.links:
                for f, off, m in getattr(l, "msgs", ()):
                    n = serial(m)
                    if n is not None:
                        said.setdefault((a.id, m["msg"]["proc_id"] if m["type"] == "RequestError" else m["proc_id"]), {}).setdefault(n, []).append((f, m, l))
        used = {}
        for s in sim.streams:
            a = byid.get(s["conn"])
            id = s["id"]
            self.did("streams")
            self.did("updates", len(s["updates"]))
            if s["end"]:
                self.did(f"stream_{s['end'][2].split(':')[0]}")
            if a is None:
                self.bad("C19", f"a process of no agent: {id} on {s['conn']}", s["t"])
                continue
            mine = said.get((a.id, id), {})
            last = -1
            nos = []
            for t, _, kind, d in s["updates"]:
                n = serial2(kind, d)
                what = f"{id}, update {n} at {self.rel(t)}"
                hits = mine.get(n)
                if n is None or not hits or min(f for f, _, _ in hits) > t:
                    self.bad("C19", f"an update its agent did not send: {what}", t)
                    continue
                if n < last:
                    self.bad("C19", f"updates out of order: {what} after {last}", t)
                elif n == last and nos.count(n) >= len(hits) or n in used.get(id, ()) and n not in nos:
                    self.bad("C19", f"an update came twice: {what}", t)
                last = n
                nos.append(n)
                m = hits[0][1]
                if kind == "result":
                    if d.get("via") != a.id:
                        self.bad("C19", f"an update of another agent: {what} from {d.get('via')}", t)
                    if {k: v for k, v in d.items() if k != "via"} != m.get("res"):
                        self.bad("C19", f"an update was changed: {what}: {d} for {m}", t)
                elif kind == "error":
                    if d != {"msg": m.get("msg"), "err": m.get("err")}:
                        self.bad("C19", f"an error was changed: {what}: {d} for {m}", t)
                elif kind == "fd":
                    if any(d[k] != m.get(k) for k in ("fd", "start", "stop", "encoding", "data")):
                        self.bad("C19", f"an update was changed: {what}: {d} for {m}", t)
                else:
                    self.bad("C19", f"an odd update: {what}", t)
            used.setdefault(id, set()).update(nos)
            r = self.op_of(s)
            since = s["t0"] = r["t0"] if r else s["t"]
            es = self.ends(a, id)
            end = s["end"]
            if end is not None:
                te, _, how = end
                if how not in TERMINAL:
                    self.bad("C19", f"a stream broke: {id} at {self.rel(te)}: {how}", te)
                    continue
                lo = since - 2 * MS
                if not any((lo <= self.late(t) or e and e.conn.paused is not None) and (t if e else self.pop_since[a.id, t]) <= te and k == how for t, k, _, e in es):
                    self.bad(TERMINAL[how], f"a stream ended for no reason: {id} ({s['how']} at {self.rel(since)}) at {self.rel(te)} with {how}", te)
            # What it must have seen.
            if not s["consuming"] or s["stopped"]:
                continue
            upto = min((t for t, k, sure, _ in es if t >= s["t"]), default=INF)
            if end is not None:
                # Nothing comes after what ended it.
                upto = min([upto] + [t for t, k, _, e in es if lo <= self.late(t) and t <= end[0] and k == end[2]])
            # Reading takes a while.
            slow = self.slow(s)
            for n, hits in sorted(mine.items()):
                f, m, l = hits[0]
                if s.get("deleting") and n > last:
                    break  # deleting it reads on
                if s.get("shared") and self.late(max(f, s["c_t"]), 200 * MS + slow) >= s["shared"]:
                    break
                if n in nos or f < (s["t"] if s["how"] != "start" else since) or f >= upto:
                    continue
                sure = l.surely and self.late(f) < l.sure and (l.t_end_fed is None or self.late(l.tA) < l.t_end_fed)
                if not sure or self.late(f, 200 * MS + slow) > self.horizon:
                    continue
                if l.t_lost != INF and l.t_bad is not None and self.late(f) >= l.t_bad:
                    continue
                self.bad("C19 C20" if l.k else "C19", f"an update was lost: {id}, {m['type']} {n} which the server got at {self.rel(f)} on {l.name}", f)
                break
            # It must have ended; unless sending its deletion is held up.
            if s.get("deleting") and any(l.conn.paused is not None for l in a.links if l.conn):
                continue
            for t, k, sure, l in es:
                if sure and (t if l else self.pop_since[a.id, t]) >= s["t"] + (l is None):
                    due = self.late(max(t, s["c_t"]), 200 * MS + slow)
                    if due < self.horizon and (end is None or end[0] > due):
                        self.bad(TERMINAL[k], f"a waiter was not released: {id} ({s['how']} at {self.rel(since)}), due by {self.rel(due)} with {k}", due)
                    break

    def slow(self, s):
        c = s.get("c") or {}
        d = c.get("delay_us", 0)
        n = (len(s["updates"]) + 2) * (d + S // 100) if d else 0
        if c.get("wait_us") is not None:
            # Not always waiting; not waiting at all, it tries some times.
            n += (1 if c["wait_us"] else 22) * (c["rest_us"] + S // 100)
        return n

    def op_of(self, s):
        for r in self.sim.ops:
            if r.get("stream") == s["n"]:
                return r
        return None


def mentions(m, id):
    return m.get("proc_id") == id or m["type"] == "RequestError" and isinstance(m.get("msg"), dict) and (m["msg"].get("proc_id") == id or id in m["msg"].get("specs", ()))


def serial(m):
    if m["type"] == "ProcResult" and isinstance(m.get("res"), dict):
        return m["res"].get("serial")
    if m["type"] == "ProcFdData":
        return int(m["data"])
    if m["type"] == "RequestError" and "proc_id" in m["msg"]:
        return err_serial(m["err"])
    return None


def err_serial(e):
    try:
        return int(e.split("#")[1])
    except (IndexError, ValueError):
        return None


def serial2(kind, d):
    try:
        return d["serial"] if kind == "result" else int(d["data"]) if kind == "fd" else err_serial(d["err"]) if kind == "error" else None
    except (KeyError, ValueError, TypeError):
        return None


def violations(sim):
    o = Oracle(sim)
    o.ends_memo = {}
    return o.check()
