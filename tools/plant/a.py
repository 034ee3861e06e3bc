"""Drives a real agent, a real server or a pretended one for a demonstration."""
import asyncio, contextlib, logging, os, shutil, signal, socket, ssl, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "python"))
import msgpack
import websockets.client, websockets.server
from procstar.testing import TLS_CERT_PATH, TLS_KEY_PATH
from procstar.agent.server import Server as ProcstarServer
BIN = os.path.join(os.getcwd(), "target/debug/procstar")
DIR = tempfile.mkdtemp(prefix="demo-")
PROCS = []
logging.disable(logging.CRITICAL)
TOKEN = "sesame"
def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
def agent(p, *args, conn_id="c0", group="default", token=TOKEN):
    """A real agent that connects to the port."""
    env = dict(os.environ, PROCSTAR_AGENT_CERT=str(TLS_CERT_PATH), PROCSTAR_AGENT_TOKEN=token)
    a = subprocess.Popen([BIN, "--agent", "--agent-host", "localhost", "--agent-port", str(p), "--conn-id", conn_id, "--group-id", group, *args], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(DIR + "/stderr", "ab"))
    PROCS.append(a)
    return a
@contextlib.asynccontextmanager
async def pretend_server(fn, p):
    """A server of which `fn(link)` handles each connection."""
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); ctx.load_cert_chain(TLS_CERT_PATH, TLS_KEY_PATH)
    async def handle(ws):
        with contextlib.suppress(Exception): await fn(Link(ws))
        with contextlib.suppress(Exception): ws.transport.abort()
    async with websockets.server.serve(handle, "localhost", p, ssl=ctx, max_size=None, ping_interval=None):
        yield
class Link:
    def __init__(self, ws): self.ws = ws; self.got = []
    async def send(self, type, **kw): await self.ws.send(msgpack.packb({"type": type, **kw}))
    async def recv(self, timeout=10):
        m = msgpack.unpackb(await asyncio.wait_for(self.ws.recv(), timeout)); self.got.append(m); return m
    async def until(self, f, timeout=10):
        t = time.monotonic() + timeout
        while True:
            m = await self.recv(max(0.01, t - time.monotonic()))
            if f(m): return m
    async def register(self):
        m = await self.recv(); assert m["type"] == "Register"; await self.send("Registered"); return m
async def real_server(**kw):
    """A real server; returns it and its port."""
    s = ProcstarServer(); p = port()
    s.ws = await s.run(host="localhost", port=p, tls_cert=(TLS_CERT_PATH, TLS_KEY_PATH), access_token=TOKEN, **kw)
    return s, p
async def pretend_agent(p, conn_id="c0", group="default", proc_ids=(), token=TOKEN, state="active"):
    """Connects and registers as an agent."""
    ctx = ssl.create_default_context(cafile=TLS_CERT_PATH)
    ws = await websockets.client.connect(f"wss://localhost:{p}", ssl=ctx, max_size=None)
    l = Link(ws)
    await l.send("Register", conn={"conn_id": conn_id, "group_id": group, "restricted_exe": None}, proc=dict(pid=1, ppid=0, uid=0, euid=0, username="u", gid=0, egid=0, groupname="g", hostname="h"), proc_ids=list(proc_ids), access_token=token, shutdown_state=state)
    assert (await l.recv())["type"] == "Registered"
    return l
def res(state="running", **kw): return dict(state=state, errors=[], pid=123, fds={}, **kw)
def main(f, timeout=100):
    ok = False
    try: ok = asyncio.run(asyncio.wait_for(f(), timeout))
    except BaseException as e: print(repr(e))
    for p in PROCS:
        try: p.send_signal(signal.SIGQUIT)
        except Exception: pass
    for p in PROCS:
        try: p.wait(9)
        except Exception: p.kill()
    shutil.rmtree(DIR, ignore_errors=True)
    print("ok" if ok else "FAILED")
    sys.exit(0 if ok else 1)
