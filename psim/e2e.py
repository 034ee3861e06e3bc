"""
The real Python agent server, driven step by step by ksim: ksim owns the clock,
the network and the agent; this process is told what arrives and when, and
tells what the server and its clients then do, and until when it would wait.

Commands, one JSON object a line, on standard input:
  {"run": {...}}               starts a run (in a forked process)
  {"t": µs, "ev": [...]}       lets it run from then, with these events
  {"end": true}                ends the run
Answers, one a line, on standard output:
  {"now": µs, "next": µs|null, "out": [...], "log": [...]}
"""
import asyncio, gc, json, os, random, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import run as R
from world import World, SimLoop, SimTransport, SimQueue, EPOCH

BUF = bytearray()


def command():
    while b"\n" not in BUF:
        d = os.read(0, 1 << 16)
        if not d:
            os._exit(0)
        BUF.extend(d)
    l, _, r = bytes(BUF).partition(b"\n")
    BUF[:] = r
    return json.loads(l)


def answer(x):
    d = json.dumps(x, default=plain).encode() + b"\n"
    while d:
        d = d[os.write(1, d):]


def plain(x):
    if isinstance(x, bytes):
        return {"hex": x.hex()}
    j = getattr(x, "to_jso", None)
    if callable(j):
        return j()
    try:
        return dict(x.__dict__)
    except Exception:
        return repr(x)


class Crash(BaseException):
    pass


class Link:
    """The server's end of a connection, whose other end is in ksim."""

    def __init__(self, world, n, ip, port):
        self.world = world
        self.n = n
        self.dead = False
        self.server_gone = False
        self.paused = None
        self.t_lost = None
        p = world.listening[0]()
        self.tr = SimTransport(world.loop, self, p, (ip, port))
        world.loop.call_soon(p.connection_made, self.tr)

    def window(self):
        return 1 << 40

    def send_down(self, b):
        self.world.out.append(["data", self.n, b.hex()])

    def down_end(self, how):
        if not self.dead:
            self.world.out.append([how, self.n])

    def noted(self, how):
        pass

    def fed(self, n):
        pass


class PipeWorld(World):
    def __init__(self, seed, cost_us):
        super().__init__(seed, {})
        self.cost_us = cost_us
        self.out = []
        self.told = []
        self.links = {}
        self.turns = 0

    def log(self, kind, **kw):
        pass

    def tell(self, kind, **kw):
        kw["k"] = kind
        kw["t"] = self.now
        self.told.append(kw)

    def exchange(self, until):
        """Says what happened and waits to be told what happens next."""
        answer({"now": self.now, "next": until, "out": self.out, "log": self.told})
        self.out, self.told, self.turns = [], [], 0
        c = command()
        if "end" in c:
            answer({"ended": True})
            os._exit(0)
        self.now = max(self.now, c["t"])
        for e in c["ev"]:
            k = e[0]
            if k == "open":
                if self.listening:
                    self.links[e[1]] = Link(self, e[1], e[2], e[3])
                else:
                    self.out.append(["rst", e[1]])
            elif k == "data":
                self.links[e[1]].tr.push(bytes.fromhex(e[2]))
            elif k == "fin":
                self.links[e[1]].tr.push("fin")
            elif k == "rst":
                l = self.links[e[1]]
                l.dead = True
                l.tr.inbuf[:] = [ConnectionResetError(104, "Connection reset by peer")]
                l.tr.mark()
            elif k == "crash":
                raise Crash()
        return c

    def select(self, timeout):
        self.turns += 1
        if self.turns > 200_000:
            self.tell("spins")
            self.exchange(None)
        limit = None if timeout is None else self.now + max(1, int(timeout * 1e6 + 0.999))
        self.now += 1 + self.rng.randrange(self.cost_us + 1)
        ran = self.run_due()
        if self.watch:
            self.watch()
        if not ran and not self.ready and not self.loop._ready and (timeout is None or timeout > 0):
            while not self.ready and not self.loop._ready:
                t = self.heap[0][0] if self.heap else None
                if t is None or limit is not None and limit < t:
                    t = limit
                if t is None or t > self.now:
                    self.exchange(t)
                if self.run_due() or limit is not None and self.now >= limit:
                    break
        r = self.ready
        self.ready = []
        if len(r) > 1:
            self.rng.shuffle(r)
        return r


class Run:
    def __init__(self, cfg, ps):
        self.cfg = cfg
        self.ps = ps
        random.seed(cfg["seed"])
        SimQueue.count = 0
        self.w = R.world = PipeWorld(cfg["seed"], cfg["cost_us"])
        self.w.watch = self.watch
        self.known = {}
        self.server = None
        self.keep = []
        # What clients know by heart: number -> (process id, connection id), of
        # those whose end they have not seen.
        self.following = {}
        self.lives = 0

    def watch(self):
        if self.server is None:
            return
        now = {i: (bool(c.open), c.shutdown_state.name) for i, c in self.server.connections.items()}
        if now != self.known:
            self.known = now
            self.w.tell("conns", conns={i: list(x) for i, x in now.items()})

    def spawn(self, c):
        t = self.loop.create_task(c)
        self.keep.append(t)
        return t

    def life(self):
        """One life of the server's process, until it crashes."""
        w = self.w
        self.lives += 1
        self.loop = SimLoop(w)
        self.loop.set_exception_handler(lambda loop, c: w.tell("oops", what=f"{c.get('message')}: {c.get('exception')!r}"))
        asyncio.set_event_loop(self.loop)
        self.server = None
        first = self.lives == 1

        async def main():
            c = self.cfg
            self.server = self.ps.agent.server.Server()
            rt = c["reconnect_timeout_us"]
            await self.server.run(host="localhost", port=59789, access_token=c["token"], tls_cert=(os.path.join(R.CERTS, "server.pem"), os.path.join(R.CERTS, "server.key")), reconnect_timeout=None if rt is None else rt / 1e6)
            w.tell("serving")
            if first:
                for n, op in enumerate(c["ops"]):
                    w.at(EPOCH + op["at_us"], lambda n=n, op=op: self.due(n, op))
            for n in sorted(self.following):
                self.spawn(self.again(n))

        self.spawn(main())
        self.up = True
        try:
            self.loop.run_forever()
        except Crash:
            pass
        self.up = False
        asyncio.set_event_loop(None)
        self.keep.append((self.loop, self.server))
        self.server = None
        self.known = {}
        w.listening = None
        w.links.clear()
        w.ready.clear()
        w.out.clear()
        self.loop._ready.clear()
        self.loop._scheduled.clear()
        asyncio._set_running_loop(None)
        w.tell("crashed")

    def due(self, n, op):
        if self.up:
            self.spawn(self.do(n, op))
        else:
            # Nobody is there to do it.
            self.w.tell("skipped", n=n)

    def failed(self, n, e, kind="failed"):
        kw = {}
        if isinstance(e, self.ps.agent.proc.AgentMessageError):
            kw["req"] = e.msg.get("type")
        msg = str(e.err) if kw else str(e)
        self.w.tell(kind, n=n, how=type(e).__name__, msg=msg, **kw)

    def refused(self, n, e):
        if e.msg.get("type") == "ProcStartRequest":
            raise e
        # Not about the process itself.
        self.w.tell("refused", n=n, req=e.msg.get("type"), msg=str(e.err))

    async def do(self, n, op):
        w = self.w
        w.tell("op", n=n)
        kw = {"conn_timeout": op["timeout_us"] / 1e6}
        if self.cfg["group"] is not None:
            kw["group_id"] = self.cfg["group"]
        first = None
        try:
            if op["api"] == "start":
                proc, first = await self.server.start(op["id"], op["spec"], **kw)
            else:
                proc = await self.server.request_start(op["id"], op["spec"], **kw)
        except Exception as e:
            return self.failed(n, e)
        w.tell("started", n=n, conn=proc.conn_id)
        self.following[n] = (proc.proc_id, proc.conn_id)
        await self.follow(n, op, proc, first)

    async def again(self, n):
        """A client of the former server takes up its process again."""
        op = self.cfg["ops"][n]
        i, c = self.following[n]
        while True:
            try:
                proc = await self.server.reconnect(c, i, conn_timeout=30)
                break
            except self.ps.agent.exc.NoConnectionError:
                continue
            except Exception as e:
                return self.failed(n, e)
        self.w.tell("again", n=n)
        await proc.request_result()
        await self.follow(n, op, proc, None)

    async def act(self, n, proc, what, life):
        if life != self.lives or not self.up:
            return
        w = self.w
        w.tell("act", n=n, what=what)
        try:
            if what == "delete":
                await proc.request_delete()
            elif what == "result":
                await proc.request_result()
            elif what.startswith("fd "):
                await proc.request_fd_data(what[3:])
            else:
                await proc.send_signal(int(what[7:]))
        except Exception as e:
            w.tell("act_failed", n=n, what=what, how=type(e).__name__)
        else:
            w.tell("acted", n=n, what=what)

    async def follow(self, n, op, proc, first):
        w = self.w
        P = self.ps.agent.proc
        life = self.lives
        for us, what in op["acts"]:
            w.after(us, lambda what=what: self.up and life == self.lives and self.spawn(self.act(n, proc, what, life)))
        over = False
        try:
            while True:
                if first is not None:
                    u, first = first, None
                else:
                    try:
                        if op["wait_us"]:
                            u = await asyncio.wait_for(anext(proc.updates), op["wait_us"] / 1e6)
                        else:
                            u = await anext(proc.updates)
                    except StopAsyncIteration:
                        self.following.pop(n, None)
                        return w.tell("end", n=n, how="deleted")
                    except TimeoutError:
                        continue
                    except P.AgentMessageError as e:
                        self.refused(n, e)
                        continue
                if isinstance(u, P.Result):
                    v = dict(u.__dict__)
                    v.pop("procstar", None)
                    w.tell("result", n=n, v=v)
                    if v.get("state") != "running" and not over:
                        over = True
                        # What it set out to learn it knows.
                        self.following.pop(n, None)
                        w.tell("done", n=n)
                        if op["then"] == "delete":
                            w.tell("act", n=n, what="delete")
                            try:
                                await proc.delete()
                            except P.AgentMessageError as e:
                                self.refused(n, e)
                                continue
                            return w.tell("end", n=n, how="deleted")
                        elif op["then"].startswith("fd "):
                            w.tell("act", n=n, what=op["then"])
                            await proc.request_fd_data(op["then"][3:])
                elif isinstance(u, P.FdData):
                    w.tell("fd", n=n, fd=u.fd, start=u.interval.start, stop=u.interval.stop, encoding=u.encoding, data=u.data if isinstance(u.data, bytes) else repr(u.data))
                else:
                    w.tell("odd", n=n, what=repr(u))
                if op["delay_us"]:
                    await asyncio.sleep(op["delay_us"] / 1e6)
        except Exception as e:
            self.following.pop(n, None)
            self.failed(n, e, "end")

    def run(self):
        gc.disable()
        while True:
            self.life()
            # Down until told otherwise.
            c = self.w.exchange(None)
            assert c["ev"] == [] or c["ev"] == [["boot"]], c


def main():
    # Answers go where nothing else is written.
    ps = R.install(sys.argv[1])
    answer({"ready": True})
    while True:
        c = command()
        pid = os.fork()
        if pid == 0:
            try:
                Run(c["run"], ps).run()
            except BaseException:
                answer({"broken": traceback.format_exc()})
            os._exit(0)
        os.waitpid(pid, 0)


main()
