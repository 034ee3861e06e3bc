"""
The real Python specs and HTTP client, without any network or time of their own:
each call of the client runs until it has a request to send, and goes on when
it is told what came back.

Commands, one JSON object a line, on standard input:
  {"run": true}                       starts a run (in a forked process)
  {"n": N, "call": {...}}             -> {"request": hex} or a result
  {"n": N, "response": hex | null}    -> a result (null: the connection failed)
  {"end": true}                       ends the run
A result is {"ok": value} or {"err": class, "status": status}.
"""
import json, os, sys, traceback

src = os.path.abspath(sys.argv[1])
sys.path.insert(0, src)
import httpx
import procstar.http.client as client
import procstar.spec as spec

BUF = bytearray()
Fd = spec.Proc.Fd


def command():
    while b"\n" not in BUF:
        d = os.read(0, 1 << 16)
        if not d:
            os._exit(0)
        BUF.extend(d)
    l, _, r = bytes(BUF).partition(b"\n")
    BUF[:] = r
    return json.loads(l)


def answer(x):
    d = json.dumps(x).encode() + b"\n"
    while d:
        d = d[os.write(1, d):]


def fd_of(j):
    """A descriptor spec as Python objects."""
    if isinstance(j, str):
        return {"inherit": Fd.Inherit, "close": Fd.Close, "pipe-write": Fd.PipeWrite}[j]()
    (k, p), = j.items()
    if k == "null":
        return Fd.Null(**p)
    if k == "file":
        p = dict(p)
        return Fd.File(p.pop("path"), **p)
    if k == "dup":
        return Fd.Dup(p["fd"])
    if k == "capture":
        return Fd.Capture(p.get("mode", "tempfile"), p.get("encoding"), **({"attached": p["attached"]} if "attached" in p else {}))
    if k == "pipe-read":
        return Fd.PipeRead(p["proc_id"], p["fd"])
    raise ValueError(k)


def proc_of(j):
    if "make" in j:
        m = j["make"]
        return spec.make_proc(m["what"], env_vars=m["env_vars"], fds={n: fd_of(f) for n, f in m["fds"]})
    s = j["spec"]
    kw = {}
    if "env" in s:
        kw["env"] = spec.Proc.Env(**{k: v for k, v in s["env"].items()})
    if "fds" in s:
        kw["fds"] = {n: fd_of(f) for n, f in s["fds"]}
    return spec.Proc(s["argv"], **kw)


class Wait:
    def __init__(self, x):
        self.x = x

    def __await__(self):
        return (yield self.x)


class Transport(httpx.AsyncBaseTransport):
    async def handle_async_request(self, request):
        body = await request.aread()
        head = [request.method.encode() + b" " + request.url.raw_path + b" HTTP/1.1"]
        head += [k + b": " + v for k, v in request.headers.raw]
        got = await Wait(b"\r\n".join(head) + b"\r\n\r\n" + body)
        if got is None:
            raise httpx.ReadError("connection lost", request=request)
        h, _, b = got.partition(b"\r\n\r\n")
        ls = h.split(b"\r\n")
        hs = [tuple(y.strip() for y in l.split(b":", 1)) for l in ls[1:]]
        return httpx.Response(int(ls[0].split()[1]), headers=hs, content=b, request=request)


def plain(x):
    if isinstance(x, bytes):
        return {"hex": x.hex()}
    if isinstance(x, str):
        return {"str": x}
    return {"val": x}


class Run:
    def __init__(self, port):
        self.raw = httpx.AsyncClient(transport=Transport(), trust_env=False)
        self.addr = ("127.0.0.1", port)
        self.c = client.AsyncClient(self.addr, self.raw)
        self.live = {}

    async def call(self, c):
        k, a = self.c, c
        do = c["do"]
        if do == "start":
            procs = {i: proc_of(j) for i, j in c["specs"].items()}
            if len(procs) == 1:
                (i, p), = procs.items()
                return await k.start_proc(p, proc_id=i)
            rsp = await self.raw.request("POST", f"http://127.0.0.1:{self.addr[1]}/procs", json=spec.to_jso(**procs))
            rsp.raise_for_status()
            return None
        if do == "list":
            return await k.get_procs()
        if do == "get":
            return await k.get_proc(c["id"])
        if do == "delete":
            return await k.delete_proc(c["id"])
        if do == "signal":
            return await k.send_signal(c["id"], c["sig"])
        return await k.get_output_data(c["id"], c["fd"])

    def step(self, n, x):
        co = self.live[n]
        try:
            r = co.send(x)
        except StopIteration as e:
            del self.live[n]
            return {"ok": plain(e.value)}
        except Exception as e:
            del self.live[n]
            rsp = getattr(e, "response", None)
            return {"err": type(e).__name__, "msg": str(e)[:200], "status": getattr(rsp, "status_code", None)}
        return {"request": r.hex()}

    def run(self):
        while True:
            c = command()
            if "end" in c:
                answer({"ended": True})
                os._exit(0)
            n = c["n"]
            if "call" in c:
                self.live[n] = self.call(c["call"])
                answer(self.step(n, None))
            else:
                r = c["response"]
                answer(self.step(n, None if r is None else bytes.fromhex(r)))


def main():
    answer({"ready": True})
    while True:
        c = command()
        pid = os.fork()
        if pid == 0:
            try:
                Run(c["run"]).run()
            except BaseException:
                answer({"broken": traceback.format_exc()})
            os._exit(0)
        # What was read already is the run's.
        BUF.clear()
        os.waitpid(pid, 0)


main()
