"""Drives a real procstar for a demonstration; everything it makes is in a scratch directory."""
import json, os, shutil, signal, socket, subprocess, sys, tempfile, time, urllib.error, urllib.request
BIN = os.path.join(os.getcwd(), "target/debug/procstar")
DIR = tempfile.mkdtemp(prefix="demo-")
PROCS = []
def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
class Server:
    def __init__(self, *args, env=None):
        self.port = port()
        self.p = subprocess.Popen([BIN, "--serve", "--serve-port", str(self.port), *args], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(DIR + "/stderr", "ab"), env=env)
        PROCS.append(self.p)
        for _ in range(200):
            try: socket.create_connection(("127.0.0.1", self.port), 1).close(); return
            except OSError: time.sleep(0.05)
        raise SystemExit("procstar did not start")
    def req(self, method, path, body=None, timeout=20):
        r = urllib.request.Request(f"http://127.0.0.1:{self.port}{path}", method=method, data=None if body is None else json.dumps(body).encode(), headers={"Content-Type": "application/json"})
        try:
            with urllib.request.urlopen(r, timeout=timeout) as f: return f.status, f.read()
        except urllib.error.HTTPError as e: return e.code, e.read()
    def start(self, **specs): return self.req("POST", "/procs", {"specs": specs})[0]
    def get(self, i):
        s, b = self.req("GET", "/procs/" + i)
        return json.loads(b)["data"]["procs"][i] if s == 200 else None
    def wait(self, i, timeout=20):
        t = time.time() + timeout
        while time.time() < t:
            r = self.get(i)
            if r is None or r["state"] != "running": return r
            time.sleep(0.05)
        return self.get(i)
def main(f):
    try: ok = f()
    except BaseException as e:
        print(repr(e)); ok = False
    for p in PROCS:
        try: p.send_signal(signal.SIGQUIT)
        except Exception: pass
    for p in PROCS:
        try: p.wait(7)
        except Exception: p.kill()
    shutil.rmtree(DIR, ignore_errors=True)
    print("ok" if ok else "FAILED")
    sys.exit(0 if ok else 1)
