"""
A model of an agent: an ordinary one that behaves as the real agent does, and,
as its plan says, one that misbehaves or whose network does.
"""
import msgpack
from world import Conn

SPEC = ("argv",)


def frame(op, data, fin=True, mask=b"\0\0\0\0"):
    h = bytearray([(0x80 if fin else 0) | op])
    n = len(data)
    if n < 126:
        h.append(0x80 | n)
    elif n < 65536:
        h += bytes([0x80 | 126]) + n.to_bytes(2, "big")
    else:
        h += bytes([0x80 | 127]) + n.to_bytes(8, "big")
    return bytes(h) + mask + data


class Proc:
    def __init__(self, id, known):
        self.id = id
        self.state = "running"
        self.sig = None
        self.n = 0


class Link:
    """One connection of an agent."""

    def __init__(self, agent, k, plan):
        self.agent = agent
        self.k = k                # which of the agent's connections
        self.plan = plan
        self.w = agent.w
        self.up = []              # (end offset, name, message)
        self.down = []            # (t, seq, message)
        self.buf = bytearray()
        self.http = False
        self.registered = False   # got Registered
        self.gone = False         # given up by the agent
        self.end = None           # (t, how) as the agent saw it
        self.closing = False
        self.stalled = False
        self.held = []            # data read late
        self.frag = bytearray()
        self.reg = None           # (offset, Register message)
        self.hole_how = None
        self.t_hole = None        # when the network first misbehaved on it
        self.sent_close = None
        self.got_close = self.t_got_close = None
        self.http_off = None
        self.bad_off = None       # offset after which the server may end it
        self.idle_pings = True
        self.conn = Conn(self.w, self, plan.get("ip", agent.plan["ip"]))
        self.name = f"{agent.id}/{k}"
        self.w.log("connect", link=self.name, conn=self.conn.n, reg=plan["reg"])

    # From the network.
    def on_open(self):
        p = self.plan
        if p["reg"] == "tcp_silent":
            return
        if p["reg"] == "http_garbage":
            self.raw(b"\x16\x03\x01 what is this?\r\n\r\n", "http garbage")
            return
        req = b"GET / HTTP/1.1\r\nHost: server:59789\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\nSec-WebSocket-Version: 13\r\n\r\n"
        if p["reg"] == "http_partial":
            req = req[:50]
        self.raw(req, None)
        self.http_off = self.conn.sent_up

    def on_data(self, b):
        if self.stalled:
            self.held.append(b)
            return
        if self.gone:
            return
        self.buf += b
        if not self.http:
            i = self.buf.find(b"\r\n\r\n")
            if i < 0:
                return
            head = bytes(self.buf[:i])
            del self.buf[:i + 4]
            if not head.startswith(b"HTTP/1.1 101"):
                self.finish("http refused")
                return
            self.http = True
            self.w.after(self.plan.get("reg_us", 0), self.register)
        while True:
            f = self.parse()
            if not f:
                return
            self.on_frame(*f)
            if self.gone:
                return

    def parse(self):
        b = self.buf
        if len(b) < 2:
            return None
        n, o = b[1] & 0x7f, 2
        if n == 126:
            if len(b) < 4:
                return None
            n, o = int.from_bytes(b[2:4], "big"), 4
        elif n == 127:
            if len(b) < 10:
                return None
            n, o = int.from_bytes(b[2:10], "big"), 10
        if len(b) < o + n:
            return None
        r = (b[0] & 15, bool(b[0] & 0x80), bytes(b[o:o + n]))
        del b[:o + n]
        return r

    def on_frame(self, op, fin, data):
        if op == 9:
            if self.idle_pings:
                self.raw(frame(10, data), None)
        elif op == 8:
            self.got_close = int.from_bytes(data[:2], "big") if len(data) >= 2 else 1005
            self.t_got_close = self.w.now
            self.w.log("close_frame", link=self.name, code=self.got_close)
            if not self.sent_close:
                self.sent_close = self.w.now
                self.raw(frame(8, data), None)
            # The server ends the connection, or the agent later.
            self.w.after(2_000_000, self.finish, "closed")
        elif op in (0, 1, 2):
            self.frag += data
            if fin:
                m = bytes(self.frag)
                self.frag.clear()
                self.message(msgpack.loads(m))

    def on_end(self, how):
        if not self.gone:
            self.finish(how)

    def finish(self, how):
        if self.gone:
            return
        self.gone = True
        self.end = (self.w.now, how)
        self.w.log("link_end", link=self.name, how=how)
        self.conn.close("fin" if how != "rst" else "rst")
        self.agent.ended(self)

    # To the server.
    def raw(self, b, name, msg=None):
        if self.gone:
            return
        self.conn.send_up(b)
        if name or msg:
            self.up.append((self.conn.sent_up, name, msg, self.w.now))

    def send(self, msg):
        """Sends a message; True if it is on its way."""
        if self.gone or self.sent_close or not self.http:
            return False
        b = msgpack.dumps(msg)
        f = self.plan.get("frames", 0)
        if f and len(b) > 1 and self.w.rng.random() < f:
            # In fragments, with a ping between them.
            self.w.fault("agent:fragmented")
            i = 1 + self.w.rng.randrange(len(b) - 1)
            d = frame(2, b[:i], False) + frame(9, b"hm") + frame(0, b[i:])
        else:
            d = frame(2, b)
        self.raw(d, msg["type"], msg)
        return True

    def bad(self, b, name):
        self.w.fault(f"agent:{name}")
        if self.bad_off is None:
            self.bad_off = self.conn.sent_up
        self.raw(b, f"bad:{name}")

    def register(self):
        if self.gone:
            return
        a, p = self.agent, self.plan
        kind = p["reg"]
        m = a.registration()
        if kind == "other_group":
            if any(l.registered for l in a.links if l is not self):
                m["conn"]["group_id"] = p["group"]
            else:
                # The server doesn't know it, and takes it.
                kind = "ok"
                self.plan = dict(p, reg="ok")
        if kind == "ok":
            pass
        elif kind == "silent":
            self.w.fault("agent:silent")
            return
        elif kind == "bad_token":
            m["access_token"] = p.get("token", "wrong")
        elif kind == "no_token":
            del m["access_token"]
        elif kind == "no_conn":
            del m["conn"]
        elif kind == "bad_state":
            m["shutdown_state"] = "sleepy"
        elif kind == "extra":
            m["conn"]["color"] = "red"
        elif kind == "result_first":
            m = {"type": "ProcResult", "proc_id": "intruder", "res": a.res(Proc("intruder", 0))}
        elif kind == "list_first":
            m = {"type": "ProcidList", "proc_ids": ["intruder"]}
        elif kind == "shutdown_first":
            m = {"type": "ShutDown", "shutdown_state": "done"}
        elif kind == "unknown_type":
            m = {"type": "Reg1ster", "a": 1}
        elif kind == "no_type":
            del m["type"]
        elif kind == "text":
            self.bad(frame(1, b"{\"type\": \"Register\"}"), kind)
            return
        elif kind == "garbage":
            self.bad(frame(2, b"\xc1\xff\x93garbage"), kind)
            return
        elif kind == "list_msg":
            self.bad(frame(2, msgpack.dumps([1, 2])), kind)
            return
        elif kind == "unmasked":
            b = msgpack.dumps(m)
            self.bad(bytes([0x82, 126]) + len(b).to_bytes(2, "big") + b, kind)
            return
        if kind == "ok":
            if self.send(m):
                self.reg = (self.conn.sent_up, m)
                self.w.log("registering", link=self.name)
        else:
            self.w.fault(f"agent:{kind}")
            self.bad_off = self.conn.sent_up
            b = msgpack.dumps(m)
            self.raw(frame(2, b), f"bad:{kind}", m)
            if p.get("then_ok"):
                # Too late.
                self.send(a.registration())

    # What the server says.
    def message(self, m):
        self.down.append((self.w.now, self.w.seq, m))
        self.w.log("down", link=self.name, type=m.get("type"), id=m.get("proc_id") or list(m.get("specs", {}))[:1])
        if self.plan["reg"] == "other_group":
            return
        if m["type"] == "Registered":
            if not self.registered:
                self.registered = True
                self.agent.registered(self)
            return
        if self.plan["reg"] != "ok":
            return
        a = self.agent
        # Requests are handled in order, taking a while.
        a.busy = max(a.busy, self.w.now) + a.delay()
        self.w.at(a.busy, a.request, self, m)


class Agent:
    def __init__(self, w, plan, token):
        self.w = w
        self.plan = plan
        self.id = plan["id"]
        self.token = token
        self.procs = {}
        self.links = []
        self.cur = None           # registered link
        self.todo = []            # connections to make
        if not hasattr(self.w, "serial"): self.w.serial = 0   # unique among all agents
        self.busy = 0
        self.shutdown = "active"
        self.t_shut = None
        self.pend = []
        self.stopped = False
        self.started = {}         # id -> times a start ran
        for id, dur in plan["procs"]:
            self.begin(id, dur)
        for t, s in plan.get("shut", []):
            w.at(w.now + t, self.shut, s)
        self.schedule(plan["conns"][0], plan["conns"][0]["at_us"])

    def delay(self):
        lo, hi = self.plan["delay_us"]
        return lo + self.w.rng.randrange(hi - lo + 1)

    # Connections.
    def schedule(self, c, us):
        self.w.after(us, self.connect, c)

    def connect(self, c):
        if self.stopped:
            return
        l = Link(self, len(self.links), c)
        self.links.append(l)
        e = c.get("end")
        if e:
            self.w.after(e["after_us"], self.trouble, l, e)
        for t, kind in c.get("noise", []):
            self.w.after(t, self.noise, l, kind)

    def trouble(self, l, e):
        if l.gone or l.end:
            return
        how = e["how"]
        self.w.fault(f"net:{how}")
        self.w.log("trouble", link=l.name, how=how)
        c = l.conn
        if l.t_hole is None:
            l.t_hole = self.w.now
            l.hole_how = how
        if how == "cut":
            l.gone = True
            l.end = (self.w.now, "cut")
            c.cut()
            self.ended(l)
        elif how == "fin":
            l.finish("fin")
        elif how == "rst":
            l.finish("rst")
        elif how == "close":
            if not l.sent_close:
                l.sent_close = self.w.now
                l.raw(frame(8, (e.get("code", 1000)).to_bytes(2, "big")), None)
            self.w.after(3_000_000, l.finish, "closed")
        elif how == "hole":
            # Nothing passes any more; the agent finds out later than that.
            c.hold()
            self.w.after(e["for_us"], l.finish, "silence")
        elif how == "hold":
            c.hold()
            self.w.after(e["for_us"], c.release)
        elif how == "hold_up":
            c.hold(down=False)
            self.w.after(e["for_us"], c.release)
        elif how == "stall":
            l.stalled = True
            self.w.after(e["for_us"], self.unstall, l)
        elif how == "zombie":
            # The agent lost it and comes back; the server has not noticed, and
            # what is under way arrives late.
            c.hold(down=False)
            l.gone = True
            l.end = (self.w.now, "zombie")
            c.peer_gone = True
            self.w.after(e["for_us"], c.release)
            self.ended(l)

    def unstall(self, l):
        l.stalled = False
        h, l.held = l.held, []
        for b in h:
            l.on_data(b)

    def ended(self, l):
        if self.cur is l:
            self.cur = None
        if self.stopped:
            return
        n = l.k + 1
        cs = self.plan["conns"]
        if n < len(cs):
            self.schedule(cs[n], cs[n]["at_us"])
        elif self.plan.get("then_us") is not None and n < 40:
            self.schedule({"reg": "ok"}, self.plan["then_us"])

    def registration(self):
        p = self.plan
        return {"type": "Register", "conn": {"conn_id": self.id, "group_id": p["group"], "restricted_exe": p.get("restricted")},
                "proc": {"pid": 7, "ppid": 1, "uid": 0, "euid": 0, "username": "u", "gid": 0, "egid": 0, "groupname": "g", "hostname": "h"},
                "proc_ids": sorted(self.procs), "access_token": self.token, "shutdown_state": self.shutdown}

    def registered(self, l):
        # The agent subscribes to its own news before it registers.
        if l.gone:
            return
        self.cur = l
        for m in l.__dict__.pop("news", []):
            l.send(m)

    def tell(self, m):
        """A notification, while there is a connection or one being made."""
        for l in self.links:
            if l.gone or not l.reg:
                continue
            if l.registered:
                l.send(m)
            else:
                l.__dict__.setdefault("news", []).append(m)

    # Processes.
    def res(self, p):
        self.w.serial += 1
        return {"state": p.state, "errors": [], "pid": 100, "fds": {}, "serial": self.w.serial, "agent": self.id,
                "status": None if p.state == "running" else {"exit_code": 0, "signum": p.sig}}

    def begin(self, id, dur):
        p = self.procs[id] = Proc(id, self.w.now)
        self.started[id] = self.started.get(id, 0) + 1
        self.w.log("begin", agent=self.id, id=id)
        if dur is not None:
            self.w.after(dur, self.finish_proc, p)
        self.tell({"type": "ProcResult", "proc_id": id, "res": self.res(p)})

    def finish_proc(self, p, sig=None):
        if p.state == "running":
            p.state = "terminated"
            p.sig = sig
            self.w.log("finish", agent=self.id, id=p.id)
            if self.procs.get(p.id) is p:
                self.tell({"type": "ProcResult", "proc_id": p.id, "res": self.res(p)})

    def request(self, l, m):
        if l.gone:
            return  # unread, for a real agent
        t = m["type"]
        def err(e):
            self.w.serial += 1
            l.send({"type": "RequestError", "msg": m, "err": f"{e} #{self.w.serial}"})
        id = m.get("proc_id")
        if t == "ProcStartRequest":
            if any(i in self.procs for i in m["specs"]):
                return err("proc ID in use")
            if any(s.get("refuse") for s in m["specs"].values()):
                return err("refused")
            for i, s in m["specs"].items():
                self.begin(i, s.get("dur"))
        elif t == "ProcidListRequest":
            l.send({"type": "ProcidList", "proc_ids": sorted(self.procs)})
        elif id not in self.procs:
            l.send({"type": "ProcUnknown", "proc_id": id})
        elif t == "ProcResultRequest":
            l.send({"type": "ProcResult", "proc_id": id, "res": self.res(self.procs[id])})
        elif t == "ProcFdDataRequest":
            self.w.serial += 1
            l.send({"type": "ProcFdData", "proc_id": id, "fd": m["fd"], "start": m["start"], "stop": m["start"] + 8, "encoding": None, "data": b"%08d" % self.w.serial})
        elif t == "ProcSignalRequest":
            p = self.procs[id]
            if p.state != "running":
                err("not running")
            elif m["signum"] in (9, 15):
                self.w.after(self.delay(), self.finish_proc, p, m["signum"])
        elif t == "ProcDeleteRequest":
            p = self.procs[id]
            if p.state == "running":
                err("running")
            else:
                del self.procs[id]
                self.w.log("deleted", agent=self.id, id=id)
                self.tell({"type": "ProcDelete", "proc_id": id})

    def shut(self, s):
        if self.stopped or self.shutdown == "done":
            return
        self.shutdown = s
        if self.t_shut is None:
            self.t_shut = self.w.now
        self.w.fault(f"agent:shutdown_{s}")
        self.tell({"type": "ShutDown", "shutdown_state": s})
        if s == "done":
            self.stopped = True
            for l in self.links:
                if not l.gone:
                    # It closes the connection, and exits.
                    if not l.sent_close:
                        l.sent_close = self.w.now
                        l.raw(frame(8, (1000).to_bytes(2, "big")), None)
                    self.w.after(1_000_000, l.finish, "done")

    # Odd but authorised messages.
    def noise(self, l, kind):
        if l.gone or not l.registered or l.sent_close:
            return
        ids = sorted(self.procs)
        some = ids[self.w.rng.randrange(len(ids))] if ids else None
        self.w.fault(f"agent:{kind}")
        P = {"type": "ProcResult", "proc_id": f"phantom-{self.id}", "res": self.res(Proc("x", 0))}
        if kind == "dup_delete":
            l.send({"type": "ProcDelete", "proc_id": f"gone-{self.id}"})
        elif kind == "unknown_unknown":
            l.send({"type": "ProcUnknown", "proc_id": f"gone-{self.id}"})
        elif kind == "phantom":
            l.send(P)
        elif kind == "list":
            l.send({"type": "ProcidList", "proc_ids": ids})
        elif kind == "register_again":
            l.send(self.registration())
        elif kind == "error_no_id":
            l.send({"type": "RequestError", "msg": {"type": "ProcidListRequest"}, "err": "cannot list"})
        elif kind == "error_unknown_id":
            l.send({"type": "RequestError", "msg": {"type": "ProcSignalRequest", "proc_id": f"phantom-{self.id}", "signum": 3}, "err": "no"})
        elif kind == "dup_result" and some:
            p = self.procs[some]
            for _ in range(3):
                l.send({"type": "ProcResult", "proc_id": some, "res": self.res(p)})
        elif kind == "ping":
            l.raw(frame(9, b"are you there"), None)
        elif kind == "pong":
            l.raw(frame(10, b"unasked"), None)
        elif kind == "active":
            l.send({"type": "ShutDown", "shutdown_state": self.shutdown})
        # These may end this connection, but nothing else.
        elif kind == "bad_text":
            l.bad(frame(1, b"text"), kind)
        elif kind == "bad_garbage":
            l.bad(frame(2, b"\xc1\xff"), kind)
        elif kind == "bad_type":
            l.bad(frame(2, msgpack.dumps({"type": "Nonsense"})), kind)
        elif kind == "bad_fields":
            l.bad(frame(2, msgpack.dumps({"type": "ProcResult", "proc": 1})), kind)
        elif kind == "bad_res":
            l.bad(frame(2, msgpack.dumps({"type": "ProcResult", "proc_id": f"phantom-{self.id}", "res": None})), kind)
        elif kind == "bad_error":
            l.bad(frame(2, msgpack.dumps({"type": "RequestError", "msg": [], "err": "x"})), kind)
        elif kind == "bad_frame":
            l.bad(b"\xff\xff\xff\xff", kind)
        elif kind == "bad_utf8":
            l.bad(frame(1, b"\xff\xfe"), kind)
        elif kind == "bad_state":
            l.bad(frame(2, msgpack.dumps({"type": "ShutDown", "shutdown_state": "odd"})), kind)
