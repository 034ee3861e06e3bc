"""
Runs the real Python agent server in the simulated world: one plan, one
exactly repeatable execution.
"""
import asyncio, gc, logging, os, random, secrets, sys, time, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from world import World, SimLoop, SimQueue, EPOCH
import agent as model

CERTS = os.path.join(HERE, "..", "ksim", "certs")
world = None  # the current one


def install(src):
    """Puts the simulated clock and so on in place, and loads the code."""
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = lambda *a: None
    for k in [k for k in os.environ if k.startswith("PROCSTAR")]:
        del os.environ[k]
    def clock():
        # Reading the clock takes time too.
        world.now += 1
        return world.now / 1e6
    time.monotonic = clock
    time.time = lambda: 1.7e9 + clock()
    time.perf_counter = clock
    secrets.token_bytes = lambda n=16: bytes(random.getrandbits(8) for _ in range(n))
    asyncio.Queue = SimQueue
    asyncio.queues.Queue = SimQueue
    import procstar.lib.time as pt
    import datetime
    if hasattr(pt, "now"):
        pt.now = lambda: datetime.datetime.fromtimestamp(time.time(), datetime.timezone.utc)
    # The installed websockets library lets only one task at a time wait for room
    # to send, by an assertion; that is none of procstar's doing.
    import websockets.legacy.protocol as wp
    async def drain_helper(self):
        if self.connection_lost_waiter.done():
            raise ConnectionResetError("Connection lost")
        if not self._paused:
            return
        if self._drain_waiter is None or self._drain_waiter.done():
            self._drain_waiter = self.loop.create_future()
        await asyncio.shield(self._drain_waiter)
    wp.WebSocketCommonProtocol._drain_helper = drain_helper
    # Sets of connections in one order, not in that of their addresses.
    made = wp.WebSocketCommonProtocol.connection_made
    def connection_made(self, transport):
        self.sim_n = transport.conn.n
        made(self, transport)
    wp.WebSocketCommonProtocol.connection_made = connection_made
    wp.WebSocketCommonProtocol.__hash__ = lambda self: self.sim_n
    import procstar.agent.server, procstar.agent.proc, procstar.agent.exc, procstar.proto
    return procstar


class Sim:
    def __init__(self, plan, procstar):
        global world
        self.plan = plan
        self.ps = procstar
        random.seed(plan["seed"])
        SimQueue.count = 0
        self.w = world = World(plan["seed"], plan["sched"])
        self.w.watch = self.watch
        self.loop = SimLoop(self.w)
        self.loop.set_exception_handler(self.oops)
        self.server = None
        self.ws_server = None
        self.known = {}            # connection id -> open, as last seen
        self.numbers = {}          # id(Process) -> (number, Process)
        self.streams = []          # per Process, what its consumer got
        self.agents = []
        self.oopses = []
        self.tasks = set()
        self.watched = 0

    def oops(self, loop, context):
        e = context.get("exception")
        self.oopses.append((self.w.now, f"{context.get('message')}: {type(e).__name__ if e else ''} {e}"))

    def watch(self):
        since, self.watched = self.watched, self.w.now
        if self.server is None:
            return
        try:
            now = {i: (c, bool(c.open)) for i, c in self.server.connections.items()}
        except Exception as e:
            now = dict(self.known)
            self.w.log("watch_failed", err=repr(e))
        old = self.known
        if now.keys() == old.keys() and all(old[i][0] is c and old[i][1] is o for i, (c, o) in now.items()):
            return
        for i in old.keys() - now.keys():
            self.w.log("popped", id=i, since=since)
        for i, (c, o) in now.items():
            if i in old and old[i][0] is not c:
                # Within one turn.
                self.w.log("popped", id=i, since=since)
            if i not in old or old[i][0] is not c:
                self.w.log("added", id=i)
            if i not in old or old[i][1] is not o or old[i][0] is not c:
                self.w.log("open" if o else "closed", id=i)
        self.known = now

    # The server.
    async def serve(self):
        p = self.plan
        rt = p["reconnect_timeout_us"]
        self.ws_server = await self.server.run(
            host="localhost", port=59789, access_token=p["token"],
            tls_cert=(os.path.join(CERTS, "server.pem"), os.path.join(CERTS, "server.key")),
            reconnect_timeout=None if rt is None else rt / 1e6)

    async def restart(self, down_us):
        self.w.fault("server:restart")
        self.w.log("restart")
        ws, self.ws_server = self.ws_server, None
        if ws:
            ws.close()
            await ws.wait_closed()
        self.w.log("stopped")
        await asyncio.sleep(down_us / 1e6)
        await self.serve()
        self.w.log("restarted")

    # Clients.
    def adopt(self, proc, how):
        """A number for this process object, and its stream."""
        k = self.numbers.get(id(proc))
        if k is None:
            k = (len(self.streams), proc)
            self.numbers[id(proc)] = k
            self.streams.append({"n": k[0], "id": proc.proc_id, "conn": proc.conn_id, "t": self.w.now, "seq": self.w.seq, "how": how,
                                 "updates": [], "end": None, "consuming": False, "stopped": False, "busy_until": 0})
        return self.streams[k[0]]

    async def consume(self, proc, st, c):
        if st["consuming"]:
            return
        st["consuming"] = True
        st["c"] = c
        st["c_t"] = self.w.now
        P = self.ps.agent.proc
        delay = c.get("delay_us", 0)
        try:
            while True:
                try:
                    if c.get("wait_us") is None:
                        u = await anext(proc.updates)
                    else:
                        u = await asyncio.wait_for(anext(proc.updates), c["wait_us"] / 1e6)
                except StopAsyncIteration:
                    how = "end"
                    break
                except TimeoutError:
                    # Waits again, a little later.
                    st["waits"] = st.get("waits", 0) + 1
                    if st["waits"] <= 20:
                        self.w.fault("client:wait_timeout")
                    else:
                        c = {**c, "wait_us": None}
                    if c.get("rest_us"):
                        await asyncio.sleep(c["rest_us"] / 1e6)
                    continue
                except P.AgentMessageError as e:
                    if e.msg.get("type") == "ProcStartRequest":
                        raise
                    # Not about the process itself.
                    u = e
                if isinstance(u, P.Result):
                    d = dict(u.__dict__)
                    i = d.pop("procstar", None)
                    d["via"] = i.conn.conn_id if i else None
                    x = ("result", d)
                    state = d.get("state")
                elif isinstance(u, P.FdData):
                    x = ("fd", {"fd": u.fd, "start": u.interval.start, "stop": u.interval.stop, "encoding": u.encoding, "data": u.data})
                    state = None
                elif isinstance(u, P.AgentMessageError):
                    x = ("error", {"msg": u.msg, "err": u.err})
                    state = None
                else:
                    x = ("odd", repr(u))
                    state = None
                st["updates"].append((self.w.now, self.w.seq, *x))
                self.w.log("update", id=st["id"], n=st["n"], what=x[0], serial=serial(x))
                if c.get("until") == "terminal" and state and state != "running":
                    st["stopped"] = True
                    if c.get("then") == "delete":
                        st["deleting"] = self.w.now
                        try:
                            await proc.delete()
                        except P.AgentMessageError as e:
                            if e.msg.get("type") == "ProcStartRequest":
                                raise
                            # Something was refused; reads on.
                            st["shared"] = min(st.get("shared", st["deleting"]), st["deleting"])
                            st["updates"].append((self.w.now, self.w.seq, "error", {"msg": e.msg, "err": e.err}))
                            st["stopped"] = False
                            c = {**c, "until": "end"}
                            continue
                        st["stopped"] = False
                        how = "end"
                        break
                    return
                if delay:
                    st["busy_until"] = self.w.now + delay
                    await asyncio.sleep(delay / 1e6)
        except asyncio.CancelledError:
            st["stopped"] = True
            raise
        except Exception as e:
            how = type(e).__name__
            if st["stopped"] and how == "WebSocketNotOpen":
                return
            st["stopped"] = False
            if how not in ("ProcessUnknownError", "AgentMessageError", "ConnectionTimeoutError"):
                how = f"{how}: {e}"
        st["end"] = (self.w.now, self.w.seq, how)
        self.w.log("stream_end", id=st["id"], n=st["n"], how=how)
        if how == "AgentMessageError" and "op" in st:
            self.retry(*st["op"])

    def spawn(self, coro):
        t = self.loop.create_task(coro)
        self.tasks.add(t)
        t.add_done_callback(self.tasks.discard)
        return t

    async def do(self, k, op, p=None):
        w = self.w
        r = {"k": k, "op": op, "t0": w.now, "s0": w.seq, "t1": None, "out": None}
        self.ops.append(r)
        w.log("op", k=k, op=op["op"], id=op.get("id") or p and p.proc_id)
        o = op["op"]
        try:
            if o == "start":
                spec = {"argv": ["x"], "dur": op["dur_us"], "refuse": op.get("refuse", False), "pad": "x" * op.get("pad", 0)}
                kw = {"group_id": op["group"], "conn_timeout": op["timeout_us"] / 1e6}
                if op.get("api") == "start":
                    c = self.server.start(op["id"], spec, **kw)
                else:
                    c = self.server.request_start(op["id"], spec, **kw)
                c = self.loop.create_task(c)
                if op.get("cancel_us") is not None:
                    w.after(op["cancel_us"], self.cancel, c, r)
                p = await c
                first = None
                if op.get("api") == "start":
                    p, first = p
                st = self.adopt(p, "start")
                if first is not None:
                    d = dict(first.__dict__)
                    i = d.pop("procstar", None)
                    d["via"] = i.conn.conn_id if i else None
                    if st["consuming"]:
                        # Two readers.
                        st["shared"] = min(st.get("shared", r["t0"]), r["t0"])
                    else:
                        st["updates"].append((w.now, w.seq, "result", d))
                r["out"] = ("ok", p.conn_id)
                r["stream"] = st["n"]
                st["op"] = (k, op)
                if op.get("consume"):
                    self.spawn(self.consume(p, st, op["consume"]))
                for j, a in enumerate(op.get("acts", [])):
                    w.after(a["at_us"], lambda j=j, a=a, p=p: self.spawn(self.do((k, j), a, p)))
            elif o == "reconnect":
                p = await self.server.reconnect(op["conn"], op["id"], conn_timeout=op["timeout_us"] / 1e6)
                st = self.adopt(p, "reconnect")
                r["out"] = ("ok", p.conn_id)
                r["stream"] = st["n"]
                if op.get("consume"):
                    self.spawn(self.consume(p, st, op["consume"]))
                for j, a in enumerate(op.get("acts", [])):
                    w.after(a["at_us"], lambda j=j, a=a, p=p: self.spawn(self.do((k, j), a, p)))
            elif o == "restart":
                await self.restart(op["down_us"])
                r["out"] = ("ok",)
            else:
                r["id"] = p.proc_id
                r["conn"] = p.conn_id
                if o == "result":
                    await p.request_result()
                elif o == "fd":
                    await p.request_fd_data("stdout")
                elif o == "signal":
                    await p.send_signal(op["signum"])
                elif o == "delete":
                    await p.request_delete()
                elif o == "await_delete":
                    # Besides whoever reads its updates.
                    st = self.adopt(p, "start")
                    st.setdefault("shared", w.now)
                    r["of"] = st["n"]
                    await p.delete()
                r["out"] = ("ok",)
        except asyncio.CancelledError:
            r["out"] = ("cancelled",)
            if op.get("again"):
                # Looks for it again, not having heard.
                w.after(op["again"]["after_us"], lambda: self.spawn(self.do((k, "again"), op["again"])))
        except Exception as e:
            r["out"] = ("error", type(e).__name__, str(e))
            if o == "start" and type(e).__name__ == "AgentMessageError":
                self.retry(k, op)
        r["t1"], r["s1"] = w.now, w.seq
        w.log("op_done", k=k, out=r["out"])

    def retry(self, k, op):
        """Once its start is refused, a client tries again by the same name."""
        if op.get("retry_us") is not None:
            us = op["retry_us"]
            op = {**op, "refuse": False, "retry_us": None, "cancel_us": None, "acts": []}
            self.w.after(us, lambda: self.spawn(self.do((k, "retry"), op)))

    def cancel(self, c, r):
        if not c.done():
            r["cancelled"] = self.w.now
            self.w.fault("client:cancelled")
            c.cancel()

    def stop(self):
        self.w.over = True
        self.loop.stop()

    def run(self):
        w, p = self.w, self.plan
        self.ops = []
        asyncio.set_event_loop(self.loop)
        gc.disable()
        w.at(EPOCH + p["horizon_us"], self.stop)
        async def main():
            self.server = self.ps.agent.server.Server()
            await self.serve()
        self.spawn(main())
        for a in p["agents"]:
            self.agents.append(model.Agent(w, a, a.get("token", p["token"])))
        for k, op in enumerate(p["ops"]):
            w.after(op["at_us"], lambda k=k, op=op: self.spawn(self.do(k, op)))
        self.crash = None
        try:
            self.loop.run_forever()
        except Exception as e:
            import traceback
            self.crash = repr(e)
            self.crash_tb = traceback.format_exc()
        w.horizon = w.now
        self.final_conns = sorted(self.server.connections) if self.server else []
        self.final_procs = sorted(self.server.processes) if self.server else []
        w.watch = None
        # Wind down, outside the run.
        w.hist_end = len(w.hist)
        w.conns_end = [(c.fed_up, c.t_fin, c.t_rst) for c in w.conns]
        for t in asyncio.all_tasks(self.loop):
            t.cancel()
        w.heap.clear()
        w.over = True
        try:
            self.loop._ready.clear()
            self.loop._scheduled.clear()
        except Exception:
            pass
        asyncio.set_event_loop(None)
        self.loop.close()
        return self


def err_serial(e):
    try:
        return int(e.split("#")[1])
    except (IndexError, ValueError):
        return None


def serial(x):
    d = x[1]
    if isinstance(d, dict):
        if "serial" in d:
            return d["serial"]
        if "err" in d:
            return err_serial(d["err"])
        if isinstance(d.get("data"), bytes):
            try:
                return int(d["data"])
            except ValueError:
                pass
    return None
