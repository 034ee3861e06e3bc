"""
The simulated world of the Python agent server: virtual time, an event loop
running on it, and a network of connections between model agents and the
server.  Everything is decided by one pseudo-random generator; time is in
whole microseconds.
"""
import asyncio, collections, heapq, random

EPOCH = 1_000_000_000  # virtual time at which a run starts, in µs


class World:
    def __init__(self, seed, sched):
        self.rng = random.Random(f"world:{seed}")
        self.now = EPOCH
        self.heap = []
        self.seq = 0
        self.steps = 0
        self.ready = []          # transports with something to read
        self.sched = sched
        self.faults = {}
        self.conns = []
        self.listening = None    # protocol factory
        self.over = False
        self.loop = None
        self.hist = []
        self.digest = 0
        self.watch = None        # called after every turn of the loop
        self.horizon = None
        self.stalls = []         # (when, for how long) the loop was kept from running

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def at(self, t, fn, *a):
        self.seq += 1
        heapq.heappush(self.heap, (max(t, self.now), self.seq, fn, a))

    def after(self, dt, fn, *a):
        self.at(self.now + max(0, int(dt)), fn, *a)

    def log(self, kind, **kw):
        self.seq += 1
        self.hist.append((self.now, self.seq, kind, kw))
        self.digest = hash((self.digest, self.now, kind, tuple(sorted((k, str(v)) for k, v in kw.items()))))

    def rel(self, t):
        return f"{(t - EPOCH) / 1e6:.6f}s"

    def run_due(self):
        n = 0
        while self.heap and self.heap[0][0] <= self.now:
            _, _, fn, a = heapq.heappop(self.heap)
            fn(*a)
            n += 1
        return n

    # The loop is about to wait, at most so long.
    def select(self, timeout):
        self.steps += 1
        s = self.sched
        limit = None if timeout is None else self.now + max(1, int(timeout * 1e6 + 0.999))
        self.now += 1 + self.rng.randrange(s["cost_us"] + 1)
        if s["stall_p"] and self.rng.random() < s["stall_p"] and self.now < s["calm_us"] + EPOCH:
            self.fault("loop:stall")
            d = self.rng.randrange(s["stall_us"] + 1)
            self.stalls.append((self.now, d))
            self.now += d
        self.run_due()
        if self.watch:
            self.watch()
        if not self.ready and not self.loop._ready and (timeout is None or timeout > 0):
            while not self.ready and not self.loop._ready:
                t = self.heap[0][0] if self.heap else None
                if t is None and limit is None:
                    # Nothing can ever happen again.
                    self.over = True
                    self.loop.stop()
                    break
                if t is None or limit is not None and limit <= t:
                    self.now = max(self.now, limit)
                    break
                self.now = max(self.now, t)
                self.run_due()
                if self.over:
                    break
        r = self.ready
        self.ready = []
        if len(r) > 1:
            self.rng.shuffle(r)
        return r


class Selector:
    def __init__(self, world):
        self.world = world

    def select(self, timeout=None):
        return self.world.select(timeout)

    def close(self):
        pass


class SimServer(asyncio.AbstractServer):
    def __init__(self, loop, world):
        self.loop = loop
        self.world = world
        self.open = True

    sockets = ()

    def get_loop(self):
        return self.loop

    def is_serving(self):
        return self.open

    def close(self):
        if self.open:
            self.open = False
            if self.world.listening and self.world.listening[1] is self:
                self.world.listening = None

    def close_clients(self):
        pass

    def abort_clients(self):
        pass

    async def start_serving(self):
        pass

    async def serve_forever(self):
        await self.loop.create_future()

    async def wait_closed(self):
        pass


class SimLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, world):
        super().__init__()
        self.world = world
        world.loop = self
        self._selector = Selector(world)
        self._clock_resolution = 1e-6

    def time(self):
        return self.world.now / 1e6

    def _process_events(self, events):
        for tr in events:
            tr._marked = False
            self._add_callback(asyncio.Handle(tr._read_ready, (), self))

    def _write_to_self(self):
        pass

    async def create_server(self, factory, host=None, port=None, *, ssl=None, **kw):
        s = SimServer(self, self.world)
        self.world.listening = (factory, s)
        self.world.log("listen", tls=ssl is not None)
        return s

    async def create_connection(self, *a, **kw):
        raise OSError("no such thing here")

    def run_in_executor(self, executor, fn, *a):
        # At once, in this thread.
        f = self.create_future()
        try:
            f.set_result(fn(*a))
        except BaseException as e:
            f.set_exception(e)
        return f


class SimTransport(asyncio.Transport):
    """The server's end of a connection, as asyncio's TLS transport behaves."""

    def __init__(self, loop, conn, protocol, peer):
        super().__init__({"peername": peer, "sockname": ("127.0.0.1", 59789)})
        self.loop = loop
        self.conn = conn
        self.protocol = protocol
        self.inbuf = []           # chunks of bytes, or "fin", or an exception
        self.out = bytearray()
        self.high, self.low = 65536, 16384
        self.paused_protocol = False
        self.reading = True
        self.closing = False
        self.lost = False
        self._marked = False

    # Reading.
    def push(self, x):
        self.inbuf.append(x)
        self.mark()

    def mark(self):
        if self.inbuf and not self._marked and not self.lost and (self.reading or isinstance(self.inbuf[0], BaseException)):
            self._marked = True
            self.conn.world.ready.append(self)

    def _read_ready(self):
        if self.lost or not self.inbuf or not (self.reading or isinstance(self.inbuf[0], BaseException)):
            return
        x = self.inbuf.pop(0)
        if isinstance(x, BaseException):
            self._die(x)
        elif x == "fin":
            self.conn.noted("fin")
            # TLS connections do not survive half closed.
            if not self.closing:
                self.protocol.eof_received()
            self._close_now()
        else:
            while self.inbuf and isinstance(self.inbuf[0], bytes):
                x += self.inbuf.pop(0)
            if not self.closing:
                self.conn.fed(len(x))
                self.protocol.data_received(x)
        self.mark()

    def pause_reading(self):
        self.reading = False

    def resume_reading(self):
        self.reading = True
        self.mark()

    def is_reading(self):
        return self.reading and not self.closing

    # Writing.
    def write(self, data):
        if self.lost or self.conn.dead or self.closing:
            return
        if data:
            self.out += data
            self.flush()
            if len(self.out) > self.high and not self.paused_protocol:
                self.paused_protocol = True
                self.conn.world.fault("server:write_paused")
                self.conn.paused = self.conn.paused or self.conn.world.now
                self.protocol.pause_writing()

    def writelines(self, l):
        self.write(b"".join(l))

    def flush(self):
        n = self.conn.window()
        if n > 0 and self.out:
            b = bytes(self.out[:n])
            del self.out[:n]
            self.conn.send_down(b)
        if self.paused_protocol and len(self.out) <= self.low:
            self.paused_protocol = False
            self.protocol.resume_writing()
        if self.closing and not self.out and not self.lost:
            self._finish()

    def set_write_buffer_limits(self, high=None, low=None):
        if high is None:
            high = 65536 if low is None else 4 * low
        self.high, self.low = high, high // 4 if low is None else low

    def get_write_buffer_size(self):
        return len(self.out)

    def get_write_buffer_limits(self):
        return self.low, self.high

    def can_write_eof(self):
        return False

    def write_eof(self):
        raise NotImplementedError

    # Ending.
    def is_closing(self):
        return self.closing or self.lost

    def _close_now(self):
        if not self.closing:
            self.close()

    def close(self):
        if self.closing or self.lost:
            return
        self.closing = True
        if not self.out:
            self._finish()

    def _finish(self):
        self.lost = True
        self.conn.down_end("fin")
        self.loop.call_soon(self._report, None)

    def abort(self):
        if self.lost:
            return
        self.lost = self.closing = True
        self.out.clear()
        self.conn.down_end("rst")
        self.loop.call_soon(self._report, None)

    def _die(self, exc):
        self.conn.noted("rst")
        self.lost = self.closing = True
        self.out.clear()
        self.conn.dead = True
        self.loop.call_soon(self._report, exc)

    def _report(self, exc):
        self.conn.server_gone = True
        self.conn.t_lost = self.conn.world.now
        self.conn.world.log("lost", conn=self.conn.n)
        self.protocol.connection_lost(exc)

    def set_protocol(self, p):
        self.protocol = p

    def get_protocol(self):
        return self.protocol


class Conn:
    """
    A TCP connection from a model agent to the server.  The agent's end has
    on_open(), on_data(bytes), on_end(how).
    """

    def __init__(self, world, end, ip):
        self.world = world
        self.n = len(world.conns)
        world.conns.append(self)
        self.end = end
        self.tr = None
        self.dead = False          # reset under both
        self.server_gone = False
        self.peer_gone = False     # the agent's end is closed
        self.closed_how = None
        self.refusing = False
        self.sent_up = 0           # bytes the agent sent
        self.fed_up = 0            # bytes the server's protocol got
        self.feeds = []            # (bytes so far, time, seq)
        self.in_flight = 0
        self.up_t = self.down_t = 0
        self.q_up = collections.deque()      # on their way, in order
        self.q_down = collections.deque()
        self.held_up = None        # how many are held back, if they are
        self.held_down = None
        self.t_open = world.now
        self.t_fin = self.t_rst = None
        self.t_arrived = None
        self.t_lost = None         # the server's end is closed
        self.paused = None         # writes were held up since
        world.after(self.lat(), self.arrive, ip)

    def lat(self):
        s = self.world.sched
        return s["lat_us"] + self.world.rng.randrange(s["jit_us"] + 1)

    def arrive(self, ip):
        w = self.world
        if self.peer_gone:
            return
        if not w.listening:
            w.fault("net:refused")
            w.after(self.lat(), self.end.on_end, "refused")
            return
        self.t_arrived = w.now
        p = w.listening[0]()
        self.tr = SimTransport(w.loop, self, p, (ip, 40000 + self.n))
        w.loop.call_soon(p.connection_made, self.tr)
        w.after(self.lat(), self.opened)

    def opened(self):
        if not self.peer_gone and not self.dead:
            self.end.on_open()

    def noted(self, what):
        if what == "fin":
            self.t_fin = self.t_fin or self.world.now
        else:
            self.t_rst = self.t_rst or self.world.now
        self.world.log("end_fed", conn=self.n, how=what)

    def fed(self, n):
        self.fed_up += n
        self.feeds.append((self.fed_up, self.world.now, self.world.seq))

    def fed_at(self, off):
        """When the server had got so many bytes, if it has."""
        for o, t, s in self.feeds:
            if o >= off:
                return t
        return None

    # Up.
    def send_up(self, b):
        if self.dead or self.peer_gone:
            return
        self.sent_up += len(b)
        w = self.world
        fr = w.sched["frag"]
        while b:
            n = len(b)
            if fr and w.rng.random() < fr:
                n = 1 + w.rng.randrange(min(n, 200))
            x, b = b[:n], b[n:]
            self.queue_up(x)

    def queue_up(self, x):
        self.q_up.append(x)
        self.up_t = max(self.up_t, self.world.now + self.lat())
        self.world.at(self.up_t, self.deliver_up)

    def deliver_up(self):
        # What comes next, whichever it is: order is kept.
        if self.dead or self.server_gone or not self.tr:
            return
        if self.held_up is not None:
            self.held_up += 1
            return
        x = self.q_up.popleft()
        if self.tr.lost:
            return
        self.tr.push(x)

    # Down.
    def window(self):
        return self.world.sched["window"] - self.in_flight

    def send_down(self, b):
        self.in_flight += len(b)
        self.queue_down(b)

    def queue_down(self, x):
        self.q_down.append(x)
        self.down_t = max(self.down_t, self.world.now + self.lat())
        self.world.at(self.down_t, self.deliver_down)

    def deliver_down(self):
        if self.held_down is not None:
            self.held_down += 1
            return
        x = self.q_down.popleft()
        if isinstance(x, bytes):
            if self.peer_gone:
                if self.closed_how == "fin" and not self.refusing:
                    # The agent's host refuses what comes for a closed socket.
                    self.refusing = True
                    self.queue_up(ConnectionResetError(104, "Connection reset by peer"))
                return
            n = len(x)
            self.end.on_data(x)
            # Read by the agent, making room.
            self.world.after(self.lat(), self.acked, n)
        elif not self.peer_gone:
            self.end.on_end(x)

    def acked(self, n):
        self.in_flight -= n
        if self.tr and not self.tr.lost and not self.dead:
            self.tr.flush()

    def down_end(self, how):
        if not self.dead:
            self.queue_down(how)

    # Faults, and the agent closing.
    def hold(self, up=True, down=True):
        if up and self.held_up is None:
            self.held_up = 0
        if down and self.held_down is None:
            self.held_down = 0

    def release(self):
        w = self.world
        u, d = self.held_up, self.held_down
        self.held_up = self.held_down = None
        for _ in range(u or 0):
            self.up_t = max(self.up_t, w.now + self.lat())
            w.at(self.up_t, self.deliver_up)
        for _ in range(d or 0):
            self.down_t = max(self.down_t, w.now + self.lat())
            w.at(self.down_t, self.deliver_down)

    def close(self, how):
        """The agent closes its end: "fin", "rst" or silently "gone"."""
        if self.peer_gone:
            return
        self.peer_gone = True
        self.closed_how = how
        if how == "fin":
            self.queue_up("fin")
        elif how == "rst":
            self.queue_up(ConnectionResetError(104, "Connection reset by peer"))

    def cut(self):
        """Something between the two resets both."""
        if self.dead:
            return
        if not self.tr:
            # Not there yet.
            self.peer_gone = True
            return
        self.dead = True
        self.held_up = self.held_down = None
        if not self.tr.lost:
            self.tr.inbuf.append(ConnectionResetError(104, "Connection reset by peer"))
            self.tr.mark()
        if not self.peer_gone:
            self.peer_gone = True
            self.world.after(self.lat(), self.end.on_end, "cut")


class SimQueue(asyncio.Queue):
    """Queues hash by number, not by address, so sets of them have one order."""
    count = 0

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        SimQueue.count += 1
        self._n = SimQueue.count

    def __hash__(self):
        return self._n

    def __eq__(self, o):
        return self is o
