S = [
dict(id="exit-code-sign", prop="C01", needs="a process that exits with a status of 128 or more",
 breaks="The reported exit code is negative instead of the true one.",
 edits=[("src/res.rs", "(Some(libc::WEXITSTATUS(status)), None, false)", "(Some(i32::from((status >> 8) as i8)), None, false)")],
 demo_py='''
def demo():
    s = Server()
    for c in (0, 1, 127, 200, 255):
        s.start(**{f"p{c}": {"argv": ["/bin/sh", "-c", f"exit {c}"]}})
        if s.wait(f"p{c}")["status"]["exit_code"] != c: return False
    return True
'''),
dict(id="text-cut-at-bad-byte", prop="C02", needs="text output that is not all UTF-8",
 breaks="Everything after the first byte that isn't valid UTF-8 is missing from the reported output.",
 edits=[("src/res.rs", "let text = String::from_utf8_lossy(&buffer).to_string();", """let text = match std::str::from_utf8(buffer) {
                    Ok(text) => text.to_string(),
                    Err(err) => String::from_utf8_lossy(&buffer[..err.valid_up_to()]).to_string(),
                };""")],
 demo_py='''
def demo():
    s = Server()
    for mode in ("memory", "tempfile"):
        s.start(**{mode: {"argv": ["/bin/sh", "-c", "printf 'ab\\\\377cd'"], "fds": [["stdout", {"capture": {"mode": mode, "encoding": "utf-8"}}]]}})
        if s.wait(mode)["fds"]["stdout"]["text"] != "ab\\ufffdcd": return False
    return True
'''),
dict(id="append-seeks-once", prop="C03", needs="two processes appending to the same file, one writing after the other opened it",
 breaks="A file wired for appending is only positioned at its end when opened, so processes sharing it overwrite each other's output.",
 edits=[("src/fd.rs", "        Append => libc::O_WRONLY | libc::O_APPEND,\n        CreateAppend => libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND,", "        Append => libc::O_WRONLY,\n        CreateAppend => libc::O_WRONLY | libc::O_CREAT,"),
        ("src/fd.rs", "                let file_fd = sys::open(&path, oflags, mode)?;\n", "                let file_fd = sys::open(&path, oflags, mode)?;\n                if oflags & (libc::O_TRUNC | libc::O_EXCL) == 0 && oflags & libc::O_WRONLY != 0 {\n                    // Continue at the end of an existing file.\n                    unsafe { libc::lseek(file_fd, 0, libc::SEEK_END) };\n                }\n")],
 demo_py='''
def demo():
    s = Server()
    f = DIR + "/log"
    fd = [["stdout", {"file": {"path": f, "flags": "CreateAppend"}}]]
    s.start(a={"argv": ["/bin/sh", "-c", "echo one; sleep 1; echo two"], "fds": fd}, b={"argv": ["/bin/sh", "-c", "sleep 0.5; echo three; sleep 1; echo four"], "fds": fd})
    s.wait("a"); s.wait("b")
    return open(f).read().split() == ["one", "three", "two", "four"]
'''),
dict(id="excluded-vars-last", prop="C04", needs="a spec that sets explicitly a variable that is not inherited",
 breaks="A variable the spec sets explicitly is missing from the process's environment if it is one of those not inherited.",
 edits=[("src/environ.rs", "    for k in EXCLUSIONS.iter() {\n        _ = env.remove(&S::from(k));\n    }\n", ""),
        ("src/environ.rs", "            _ = env.remove(&S::from(k));\n        }\n    }\n    env\n", "            _ = env.remove(&S::from(k));\n        }\n    }\n    // Never pass these on.\n    for k in EXCLUSIONS.iter() {\n        _ = env.remove(&S::from(k));\n    }\n    env\n")],
 demo_py='''
def demo():
    s = Server(env=dict(os.environ, PROCSTAR_AGENT_TOKEN="secret"))
    cap = [["stdout", {"capture": {"mode": "memory", "encoding": "utf-8"}}]]
    s.start(a={"argv": ["/bin/sh", "-c", "echo [$PROCSTAR_AGENT_TOKEN]"], "fds": cap, "env": {"vars": {"PROCSTAR_AGENT_TOKEN": "mine"}}}, b={"argv": ["/bin/sh", "-c", "echo [$PROCSTAR_AGENT_TOKEN]"], "fds": cap})
    return [s.wait(i)["fds"]["stdout"]["text"] for i in "ab"] == ["[mine]\\n", "[]\\n"]
'''),
dict(id="pipe-reader-kept", prop="C05", needs="a reading process that ends before the one writing to it",
 breaks="The supervisor keeps the read end of pipes between processes, so a writer whose reader is gone blocks for good instead of being told.",
 edits=[("src/fd.rs", """            FdHandler::PipeRead { pipe_read_fd, .. } => {
                // Only the child reads from the pipe.
                sys::close(pipe_read_fd)?;
                None
            }
""", """            // Only the child reads from the pipe.
            FdHandler::PipeRead { .. } => None,
""")],
 demo_py='''
def demo():
    s = Server()
    s.start(w={"argv": ["/usr/bin/yes"], "fds": [["stdout", "pipe-write"], ["stderr", {"null": {}}]]}, x={"argv": ["/usr/bin/head", "-n", "2"], "fds": [["stdin", {"pipe-read": {"proc_id": "w", "fd": "stdout"}}], ["stdout", {"null": {}}]]})
    s.wait("x")
    return s.wait("w", 5)["state"] == "terminated"
'''),
dict(id="failed-id-reused", prop="C07", needs="a start request that names the id of a process that could not be started",
 breaks="A start request naming the id of an existing record that failed to start is accepted, and the record is replaced without having been deleted.",
 edits=[("src/procs.rs", "        .filter(|&p| old_proc_ids.contains(p))\n", "        .filter(|&p| old_proc_ids.contains(p))\n        // An ID whose process never started is free for another try.\n        .filter(|&p| procs.get(p).map_or(true, |q| q.borrow().get_state() != State::Error))\n")],
 demo_py='''
def demo():
    s = Server()
    s.start(a={"argv": ["/nonexistent/x"]})
    if s.wait("a")["state"] != "error": return False
    return s.start(a={"argv": ["/bin/true"]}) == 400 and s.get("a")["state"] == "error"
'''),
dict(id="signal-whole-group", prop="C08", needs="a supervised process with children of its own in its process group",
 breaks="A signal request also signals every other process in the group of the one it names.",
 edits=[("src/procs.rs", "        match kill(self.pid, signum) {", "        match kill(-self.pid, signum).or_else(|_| kill(self.pid, signum)) {")],
 demo_py='''
def demo():
    s = Server()
    f = DIR + "/child"
    s.start(a={"argv": ["/bin/sh", "-c", f"(sleep 2; echo alive > {f}) & trap '' USR2; sleep 60"]})
    time.sleep(0.7)
    s.req("POST", "/procs/a/signals/SIGTERM")
    if s.wait("a")["status"]["signum"] != 15: return False
    time.sleep(2.5)
    return os.path.exists(f)
'''),
dict(id="signal-all-stops", prop="C10", needs="several processes, one of which can't be signalled, when told to shut down",
 breaks="If signalling one process fails, those after it are not told to terminate.",
 edits=[("src/procs.rs", """        let mut result = Ok(());
        self.0.borrow().procs.iter().for_each(|(_, proc)| {
            let proc = proc.borrow();
            if proc.get_state() == State::Running {
                let res = proc.send_signal(signum);
                if res.is_err() {
                    result = res;
                }
            }
        });
        result
""", """        self.0.borrow().procs.iter().try_for_each(|(_, proc)| {
            let proc = proc.borrow();
            if proc.get_state() == State::Running {
                proc.send_signal(signum)
            } else {
                Ok(())
            }
        })
""")],
 demo_py='''
def demo():
    s = Server()
    # Without the right to signal other users' processes.
    s2p = port()
    p = subprocess.Popen(["setpriv", "--bounding-set=-kill", "--inh-caps=-kill", BIN, "--serve", "--serve-port", str(s2p)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    PROCS.append(p)
    s.port = s2p
    for _ in range(100):
        try: socket.create_connection(("127.0.0.1", s2p), 1).close(); break
        except OSError: time.sleep(0.05)
    s.start(a={"argv": ["/usr/bin/setpriv", "--reuid=65534", "--clear-groups", "/bin/sleep", "60"]}, b={"argv": ["/bin/sleep", "60"]}, c={"argv": ["/bin/sleep", "60"]})
    time.sleep(0.7)
    pa = s.get("a")["pid"]
    p.send_signal(signal.SIGTERM)
    try: return s.wait("b", 4)["state"] == "terminated" and s.wait("c", 4)["state"] == "terminated"
    finally:
        os.kill(pa, 9)
'''),
dict(id="output-not-flushed", prop="C12", needs="a disk that fills up while results are written",
 breaks="The supervisor exits with status 0 although its results file is incomplete.",
 edits=[("src/res.rs", "    serde_json::to_writer(file, result)?;\n    Ok(())", "    // Buffer, since this makes many small writes.\n    let mut out = std::io::BufWriter::new(file);\n    serde_json::to_writer(&mut out, result)?;\n    Ok(())")],
 demo_py='''
def demo():
    open(DIR + "/in.json", "w").write(json.dumps({"specs": {"p": {"argv": ["/bin/echo", "hi"], "fds": [["stdout", {"capture": {}}]]}}}))
    a = subprocess.run([BIN, "--exit", "--output", "/dev/full", DIR + "/in.json"], stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30).returncode
    b = subprocess.run([BIN, "--exit", "--output", DIR + "/out.json", DIR + "/in.json"], stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30).returncode
    return a != 0 and b == 0 and json.load(open(DIR + "/out.json"))["p"]["state"] == "terminated"
'''),
dict(id="output-not-truncated", prop="C12", needs="a results file that exists already and is longer than the new results",
 breaks="The results file ends with what is left of an older, longer one, and isn't valid JSON.",
 edits=[("src/res.rs", "    let file = std::fs::File::create(path)?;", "    let file = std::fs::OpenOptions::new()\n        .write(true)\n        .create(true)\n        .open(path)?;")],
 demo_py='''
def demo():
    open(DIR + "/in.json", "w").write(json.dumps({"specs": {"p": {"argv": ["/bin/echo", "hi"]}}}))
    open(DIR + "/out.json", "w").write("x" * 100000)
    if subprocess.run([BIN, "--exit", "--output", DIR + "/out.json", DIR + "/in.json"], stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30).returncode != 0: return False
    return json.load(open(DIR + "/out.json"))["p"]["state"] == "terminated"
'''),
dict(id="wait-for-request-line", prop="C13", needs="a client that connects and sends nothing while another makes a request",
 breaks="One client that connects without sending anything keeps all others waiting.",
 edits=[("src/http.rs", "        let procs = procs.clone();\n        let router = router.clone();\n\n        let service", "        // Don't bother with connections that go away without a request.\n        if stream.readable().await.is_err() {\n            continue;\n        }\n        let procs = procs.clone();\n        let router = router.clone();\n\n        let service")],
 demo_py='''
def demo():
    s = Server()
    c = socket.create_connection(("127.0.0.1", s.port))
    time.sleep(0.3)
    ok = s.req("GET", "/procs", timeout=5)[0] == 200
    c.close()
    return ok
'''),
dict(id="old-records-dropped", prop="C09", needs="a supervisor that holds more than 40 records when another process starts",
 breaks="Records of finished processes disappear without having been deleted.",
 edits=[("src/procs.rs", "        self.0.borrow_mut().procs.insert(proc_id.clone(), proc);\n", "        let mut procs = self.0.borrow_mut();\n        procs.procs.insert(proc_id.clone(), proc);\n        // Don't keep finished procs without bound.\n        if procs.procs.len() > 40 {\n            let old = procs\n                .procs\n                .iter()\n                .find(|(_, p)| p.borrow().get_state() == State::Terminated)\n                .map(|(i, _)| i.clone());\n            if let Some(i) = old {\n                procs.procs.remove(&i);\n            }\n        }\n        drop(procs);\n")],
 demo_py='''
def demo():
    s = Server()
    s.start(**{f"a{i:02d}": {"argv": ["/bin/true"]} for i in range(40)})
    for i in range(40): s.wait(f"a{i:02d}")
    s.start(**{f"b{i:02d}": {"argv": ["/bin/true"]} for i in range(10)})
    return len(json.loads(s.req("GET", "/procs")[1])["data"]["procs"]) == 50
'''),

dict(id="backoff-not-reset", prop="C14", agent=True, needs="an agent that connects after several failures, is disconnected, and fails to connect again",
 breaks="After a success the agent goes on with the long interval of the failures before it.",
 edits=[("src/agent.rs", "        // Once successfully connected, reset the reconnect interval and count.\n        interval = cfg.interval_start;\n        count = 0;\n", "        // Once successfully connected, reset the reconnect count.\n        count = 0;\n")],
 demo_py='''
async def demo():
    p = port()
    agent(p, "--connect-interval-start", "0.2", "--connect-interval-mult", "10")
    await asyncio.sleep(1)
    up = asyncio.Event()
    async def once(l):
        await l.register(); up.set(); await asyncio.sleep(0.3)
    async with pretend_server(once, p): await asyncio.wait_for(up.wait(), 15); t = time.monotonic()
    up.clear()
    await asyncio.sleep(1)
    async with pretend_server(once, p): await asyncio.wait_for(up.wait(), 8)
    return True
'''),
dict(id="reused-id-delete-dropped", prop="C15", agent=True, needs="a process deleted and another started under its identifier, faster than the agent passes notices on",
 breaks="The server isn't told that the first process was deleted.",
 edits=[("src/agent.rs", "        Notification::Delete(proc_id) => Some(OutgoingMessage::ProcDelete { proc_id }),\n", "        Notification::Delete(proc_id) => {\n            // If there is a proc with this ID, the server has to keep it.\n            match procs.get(&proc_id) {\n                Some(_) => None,\n                None => Some(OutgoingMessage::ProcDelete { proc_id }),\n            }\n        }\n")],
 demo_py='''
async def demo():
    p = port(); out = asyncio.get_running_loop().create_future()
    async def serve(l):
        try:
            await l.register()
            spec = {"argv": ["/bin/true"]}
            await l.send("ProcStartRequest", specs={"a": spec})
            for _ in range(30):
                await l.until(lambda m: m["type"] == "ProcResult" and m["res"]["state"] == "terminated")
                await l.send("ProcDeleteRequest", proc_id="a")
                await l.send("ProcStartRequest", specs={"a": spec})
                await l.until(lambda m: m["type"] == "ProcDelete", 3)
            out.set_result(True)
        except Exception as e: out.set_exception(e)
    async with pretend_server(serve, p):
        agent(p)
        return await out
'''),
dict(id="fd-name-sliced", prop="C16", agent=True, needs="a request for the output of a descriptor whose name has a character of several bytes in a certain place",
 breaks="The agent panics.",
 edits=[("src/spec.rs", "        _ => fd.parse::<RawFd>().map_err(|_| Error::BadFd(fd.to_owned())),\n", "        // Accept the name in the form \"fd3\", too.\n        _ if fd.len() > 2 && &fd[..2] == \"fd\" => {\n            fd[2..].parse::<RawFd>().map_err(|_| Error::BadFd(fd.to_owned()))\n        }\n        _ => fd.parse::<RawFd>().map_err(|_| Error::BadFd(fd.to_owned())),\n")],
 demo_py='''
async def demo():
    p = port(); out = asyncio.get_running_loop().create_future()
    async def serve(l):
        try:
            await l.register()
            await l.send("ProcFdDataRequest", proc_id="a", fd="a\\u00e9b", start=0, stop=None)
            out.set_result((await l.recv(5))["type"] == "RequestError")
        except Exception as e: out.set_exception(e)
    async with pretend_server(serve, p):
        agent(p)
        return await out
'''),
dict(id="send-failure-ends-agent", prop="C17", agent=True, needs="a connection that is lost while the agent answers a request",
 breaks="The agent exits with a failure, and its processes are left without a supervisor.",
 edits=[("src/agent.rs", "                                => if let Err(err) = sender.send(rsp).await {\n                                    warn!(\"msg send error: {:?}\", err);\n                                    break;\n                                },\n", "                                => if let Err(err) = sender.send(rsp).await {\n                                    warn!(\"msg send error: {:?}\", err);\n                                    return Err(err.into());\n                                },\n")],
 demo_py='''
async def demo():
    p = port(); n = 0; again = asyncio.Event()
    async def serve(l):
        nonlocal n
        n += 1
        if n == 1:
            await l.register()
            await l.send("ProcStartRequest", specs={"a": {"argv": ["/bin/sh", "-c", "head -c 20000000 /dev/zero"], "fds": [["stdout", {"capture": {}}]]}})
            await l.until(lambda m: m["type"] == "ProcResult" and m["res"]["state"] == "terminated")
            # Ask for much, and go away while it comes.
            l.ws.transport.pause_reading()
            for _ in range(4): await l.send("ProcFdDataRequest", proc_id="a", fd="stdout", start=0, stop=None)
            await asyncio.sleep(3)
            return
        m = await l.register()
        if m["proc_ids"] == ["a"]: again.set()
        await asyncio.sleep(5)
    async with pretend_server(serve, p):
        agent(p)
        await asyncio.wait_for(again.wait(), 40)
        return True
'''),
dict(id="bad-reason-dropped", prop="C06", needs="a process that can't be started for a reason whose text is not valid UTF-8, for having been cut within a character",
 breaks="The process is reported terminated with status 63, as if it had run.",
 edits=[("src/err_pipe.rs", "            errors.push(String::from_utf8_lossy(&buf).to_string());\n", "            if let Ok(error) = String::from_utf8(buf) {\n                errors.push(error);\n            }\n")],
 demo_py='''
def demo():
    s = Server()
    for pre in ("/", "/x"):
        if s.start(**{"p" + pre[1:]: {"argv": [pre + "\\u00e9" * 40000]}}) != 200: return False
        r = s.wait("p" + pre[1:])
        if r["state"] != "error" or not r["errors"]: return False
    return True
'''),
dict(id="failed-not-counted", prop="C11", needs="a process that failed to start, and whose record has not been deleted, when the supervisor is idling",
 breaks="The supervisor stops although there is a record left.",
 edits=[("src/procs.rs", "        if proc.procs.is_empty() && matches!", "        // Procs that failed to start don't keep us.\n        let idle = proc\n            .procs\n            .values()\n            .all(|p| matches!(p.borrow().get_state(), State::Error));\n        if idle && matches!")],
 demo_py='''
def demo():
    s = Server()
    s.start(a={"argv": ["/bin/true"]}, b={"argv": ["/does/not/exist"]})
    s.wait("a"); s.wait("b")
    s.p.send_signal(signal.SIGUSR1)
    time.sleep(0.5)
    if s.req("DELETE", "/procs/a")[0] != 200: return False
    time.sleep(1)
    if s.p.poll() is not None or s.get("b")["state"] != "error": return False
    s.req("DELETE", "/procs/b")
    return s.p.wait(10) == 0
'''),
dict(id="connection-limit", prop="C13", needs="more than 32 connections held open by clients that say nothing",
 breaks="Idle connections keep all other clients waiting.",
 edits=[("src/http.rs", "    let router = Rc::new(Router::new());\n", "    let router = Rc::new(Router::new());\n\n    // Don't let clients use up all our fds.\n    let slots = std::sync::Arc::new(tokio::sync::Semaphore::new(32));\n"),
        ("src/http.rs", "        tokio::task::spawn_local(async move {\n            if let Err(err) = hyper::server::conn::http1::Builder::new()\n", "        let slot = slots.clone().acquire_owned().await?;\n        tokio::task::spawn_local(async move {\n            let _slot = slot;\n            if let Err(err) = hyper::server::conn::http1::Builder::new()\n")],
 demo_py='''
def demo():
    s = Server()
    cs = [socket.create_connection(("127.0.0.1", s.port)) for _ in range(40)]
    time.sleep(0.3)
    ok = s.req("GET", "/procs", timeout=5)[0] == 200
    for c in cs: c.close()
    return ok
'''),
dict(id="idling-agent-used", prop="C18", agent=True, needs="a group all of whose agents are shutting down",
 breaks="Work is sent to an agent that is shutting down.",
 edits=[("python/procstar/agent/conn.py", "        return tuple( \n            c\n            for i in conn_ids \n            if (c := self.__conns[i]).open\n            and c.shutdown_state == ShutdownState.active\n        )\n", "        conns = tuple(c for i in conn_ids if (c := self.__conns[i]).open)\n        # Prefer connections that aren't shutting down.\n        active = tuple(\n            c for c in conns if c.shutdown_state == ShutdownState.active)\n        return active or conns\n")],
 demo_py='''
async def demo():
    from procstar.agent.exc import NoOpenConnectionInGroup
    s, p = await real_server()
    l = await pretend_agent(p)
    await asyncio.sleep(0.2)
    await s.request_start("a", {"argv": ["/bin/true"]})
    await l.send("ShutDown", shutdown_state="idling")
    await asyncio.sleep(0.3)
    try: await s.request_start("b", {"argv": ["/bin/true"]})
    except NoOpenConnectionInGroup: return True
    return False
'''),
dict(id="updates-coalesced", prop="C19", agent=True, needs="a client that is slower than the results of its process arrive",
 breaks="Results sent by the agent are lost.",
 edits=[("python/procstar/agent/proc.py", "    def _on_message(self, msg):\n        self.__msgs.put_nowait(msg)\n", "    def _on_message(self, msg):\n        if isinstance(msg, proto.ProcResult):\n            # Don't let results of a running process pile up.\n            queue = self.__msgs._queue\n            if (\n                    len(queue) > 0\n                    and isinstance(queue[-1], proto.ProcResult)\n                    and queue[-1].res.get(\"state\") == \"running\"\n            ):\n                queue[-1] = msg\n                return\n        self.__msgs.put_nowait(msg)\n")],
 demo_py='''
async def demo():
    s, p = await real_server()
    l = await pretend_agent(p)
    await asyncio.sleep(0.2)
    proc = await s.request_start("a", {"argv": ["/bin/true"]})
    for k in range(4): await l.send("ProcResult", proc_id="a", res=res("running" if k < 3 else "terminated", k=k))
    await l.send("ProcDelete", proc_id="a")
    await asyncio.sleep(0.5)
    return [u.k async for u in proc.updates] == [0, 1, 2, 3]
'''),
dict(id="timeout-left-running", prop="C20", agent=True, needs="an agent whose connection is dropped for a message that can't be understood, and which reconnects in time",
 breaks="The agent is given up, with all its processes, although it is connected.",
 edits=[("python/procstar/agent/conn.py", "            # Update stats.\n            conn.info.stats.connected = True\n            conn.info.stats.last_connect_time = time\n", "            # If we've been waiting for it to reconnect, stop.\n            if not conn.info.stats.connected:\n                conn.cancel_reconnect_timeout()\n\n            # Update stats.\n            conn.info.stats.connected = True\n            conn.info.stats.last_connect_time = time\n"),
        ("python/procstar/agent/server.py", "        # If this is an existing connection, there may have been a reconnect\n        # timeout; cancel it.\n        conn.cancel_reconnect_timeout()\n\n", "")],
 demo_py='''
async def demo():
    s, p = await real_server(reconnect_timeout=2)
    l = await pretend_agent(p, proc_ids=["a"])
    await asyncio.sleep(0.2)
    await l.ws.send("what?")
    await asyncio.sleep(0.5)
    l = await pretend_agent(p, proc_ids=["a"])
    await asyncio.sleep(3)
    return "c0" in s.connections and "a" in s.processes
'''),
dict(id="idling-agent-not-asked", prop="C21", agent=True, needs="a process that ends while the connection of its agent, which is idling, is lost",
 breaks="The client never receives the result of its process.",
 edits=[("python/procstar/agent/server.py", "                # Request results for all of them.\n                for proc_id in conn_proc_ids & our_proc_ids:\n                    await conn.send(proto.ProcResultRequest(proc_id))\n", "                # Request results for all of them, if the agent is still working.\n                if conn.shutdown_state == proto.ShutdownState.active:\n                    for proc_id in conn_proc_ids & our_proc_ids:\n                        await conn.send(proto.ProcResultRequest(proc_id))\n")],
 demo_py='''
async def demo():
    s, p = await real_server()
    a = agent(p, "--connect-interval-start", "0.2")
    proc = await s.request_start("a", {"argv": ["/bin/sleep", "2"]}, conn_timeout=10)
    if (await anext(proc.updates)).state != "running": return False
    a.send_signal(signal.SIGUSR1)
    await asyncio.sleep(0.5)
    s.ws.close(); await s.ws.wait_closed()
    await asyncio.sleep(3)
    s.ws = await s.run(host="localhost", port=p, tls_cert=(TLS_CERT_PATH, TLS_KEY_PATH), access_token=TOKEN)
    r = await asyncio.wait_for(anext(proc.updates), 10)
    return r.state == "terminated"
'''),
dict(id="detached-file-kept", prop="C22", needs="output captured, detached, in a temporary file",
 breaks="A descriptor of the supervisor stays open for each such process, after its record is deleted.",
 edits=[("src/fd.rs", "            FdHandler::UnlinkedFile { file_fd, .. } => {\n                if let Err(err) = sys::close(*file_fd) {\n", "            FdHandler::UnlinkedFile {\n                file_fd,\n                attached: true,\n                ..\n            } => {\n                if let Err(err) = sys::close(*file_fd) {\n")],
 demo_py='''
def demo():
    s = Server()
    fds = lambda: len(os.listdir(f"/proc/{s.p.pid}/fd"))
    def one(i):
        s.start(**{i: {"argv": ["/bin/echo", "x"], "fds": [["stdout", {"capture": {"mode": "tempfile", "attached": False}}]]}})
        s.wait(i); return s.req("DELETE", "/procs/" + i)[0] == 200
    if not one("w"): return False
    n = fds()
    if not all([one(f"p{i}") for i in range(10)]): return False
    time.sleep(0.5)
    return fds() < n + 5
'''),
]

S += [
dict(id="stat-read-once", prop="C23", needs="a process that outlives another one",
 breaks="The system information reported of an ended process is what it was when some other process ended, not as it stood at its own end.",
 edits=[("src/procs.rs", "    let pid = proc.borrow().pid;\n\n    loop {\n", "    let pid = proc.borrow().pid;\n    // Gone once the process is collected.\n    let mut proc_stat = None;\n\n    loop {\n"),
        ("src/procs.rs", "        let proc_stat = ProcStat::load_or_log(pid);\n\n        // Check if", "        if proc_stat.is_none() {\n            proc_stat = ProcStat::load_or_log(pid);\n        }\n\n        // Check if")],
 demo_py='''
def demo():
    s = Server()
    s.start(a={"argv": ["/bin/sleep", "0.4"]}, b={"argv": ["/bin/sleep", "1"]})
    return all(s.wait(i)["proc_stat"]["state"] == "Z" for i in "ab")
'''),
dict(id="client-id-slash", prop="C24", needs="a process id with a slash",
 breaks="The asynchronous HTTP client cannot reach processes whose ids contain a slash.",
 edits=[("python/procstar/http/client.py", """    async def __request(self, method, *path, jso=None, args={}):
        netloc = f"{self.__host}:{self.__port}"
        path = "/" + "/".join( quote(p, safe="") for p in path )
""", """    async def __request(self, method, *path, jso=None, args={}):
        netloc = f"{self.__host}:{self.__port}"
        path = quote("/".join(( "", *path )))
"""), ] if "@contextlib" else [],
 demo_sh='#!/bin/bash\nexec /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"\n',
 demo_py='''
import asyncio
sys.path.insert(0, os.path.join(os.getcwd(), "python"))
def demo():
    import httpx
    from procstar.http.client import AsyncClient
    from procstar.spec import Proc
    s = Server()
    async def go():
        async with httpx.AsyncClient(trust_env=False) as h:
            c = AsyncClient(("127.0.0.1", s.port), h)
            for i in ("plain", "a b", "job/1"):
                await c.start_proc(Proc(["/bin/sleep", "0"]), proc_id=i)
                if (await c.get_proc(i))["pid"] <= 0: return False
        return True
    return asyncio.run(go())
'''),
dict(id="empty-variable-unset", prop="C24", needs="an environment variable set to an empty string",
 breaks="A variable set to the empty string is removed from the process's environment instead.",
 edits=[("python/procstar/spec.py", "str(n): None if v is None else str(v)", "str(n): str(v) if v else None")],
 demo_sh='#!/bin/bash\nexec /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"\n',
 demo_py='''
sys.path.insert(0, os.path.join(os.getcwd(), "python"))
def demo():
    from procstar.spec import Proc, make_proc, to_jso
    s = Server(env=dict(os.environ, VAR="inherited"))
    cap = {"stdout": Proc.Fd.Capture("memory", "utf-8")}
    cmd = 'echo "${VAR-unset}/${WORD-unset}"'
    s.req("POST", "/procs", json.loads(json.dumps(to_jso(
        a=Proc(["/bin/sh", "-c", cmd], env=Proc.Env(vars={"VAR": "", "WORD": "w"}), fds=cap),
        b=Proc(["/bin/sh", "-c", cmd], env=Proc.Env(vars={"VAR": None}), fds=cap)))))
    return [s.wait(i)["fds"]["stdout"]["text"] for i in "ab"] == ["/w\\n", "unset/unset\\n"]
'''),
]
S += [
dict(id="std-fds-first", prop="C03", needs="a standard stream that duplicates a descriptor other than those, which the spec names before it",
 breaks="The process fails to start, or its standard stream is not what the spec says.",
 edits=[("src/procs.rs", """        let fd_handlers = fds
            .into_iter()
            .map(|(fd_str, fd_spec)| fd::make_fd_handler(&proc_id, fd_str, fd_spec, &mut pipes))
            .collect::<Vec<_>>();
""", """        let mut fd_handlers = fds
            .into_iter()
            .map(|(fd_str, fd_spec)| fd::make_fd_handler(&proc_id, fd_str, fd_spec, &mut pipes))
            .collect::<Vec<_>>();
        // The standard streams come first.
        fd_handlers.sort_by_key(|(fd, _)| *fd > 2);
""")],
 demo_py='''
def demo():
    s = Server()
    f = [DIR + "/one", DIR + "/two"]
    fds = [["stdout", {"file": {"path": f[0]}}], ["stderr", {"dup": {"fd": 1}}]]
    s.start(a={"argv": ["/bin/sh", "-c", "echo out; echo err >&2"], "fds": fds})
    s.wait("a")
    if open(f[0]).read() != "out\\nerr\\n": return False
    fds = [["stderr", {"file": {"path": f[1]}}], ["5", {"dup": {"fd": 2}}], ["3", {"dup": {"fd": 5}}], ["stdout", {"dup": {"fd": 3}}]]
    s.start(b={"argv": ["/bin/sh", "-c", "echo out; echo err >&2"], "fds": fds})
    s.wait("b")
    return open(f[1]).read() == "out\\nerr\\n"
'''),
dict(id="restricted-suffix", prop="C04", needs="a restricted executable, and another executable whose path ends with it",
 breaks="An executable other than the restricted one is executed.",
 edits=[("src/procs.rs", "                    if exe != *restricted_exe {\n", "                    // It may be in another root.\n                    if !std::path::Path::new(&exe).ends_with(restricted_exe.trim_start_matches('/')) {\n")],
 demo_py='''
def demo():
    s = Server("--restrict-exe", "/bin/true")
    os.makedirs(DIR + "/bin")
    with open(DIR + "/bin/true", "w") as f: f.write(f"#!/bin/sh\\necho ran > {DIR}/ran\\n")
    os.chmod(DIR + "/bin/true", 0o755)
    s.start(a={"argv": ["/bin/true"]}, b={"argv": [DIR + "/bin/true"]}, c={"argv": ["/bin/sh", "-c", "true"]})
    return [s.wait(i)["state"] for i in "abc"] == ["terminated", "error", "error"] and not os.path.exists(DIR + "/ran")
'''),
dict(id="partial-start", prop="C07", needs="a start request of several processes of which not the first has an identifier in use",
 breaks="The request is refused, but the processes before that one have been started.",
 edits=[("src/procs.rs", """    // Check that proc IDs aren't already in use.
    let old_proc_ids = procs.get_proc_ids::<HashSet<_>>();
    let dup_proc_ids = specs
        .keys()
        .filter(|&p| old_proc_ids.contains(p))
        .map(|p| p.to_string())
        .collect::<Vec<_>>();
    for proc_id in dup_proc_ids.into_iter() {
        Err(spec::Error::DuplicateProcId(proc_id))?;
    }

""", ""), ("src/procs.rs", """    for (proc_id, spec) in specs.into_iter() {
        let spec::Proc {
""", """    for (proc_id, spec) in specs.into_iter() {
        // Check that the proc ID isn't already in use.
        if procs.get(&proc_id).is_some() {
            Err(spec::Error::DuplicateProcId(proc_id.clone()))?;
        }
        let spec::Proc {
""")],
 demo_py='''
def demo():
    s = Server()
    s.start(b={"argv": ["/bin/true"]}); s.wait("b")
    if s.start(a={"argv": ["/bin/true"]}, b={"argv": ["/bin/true"]}) == 200: return False
    return s.get("a") is None
'''),
dict(id="kill-no-grace", prop="C10", needs="a kill on request (SIGQUIT), and a client that asks for the results right after",
 breaks="The supervisor stops as soon as the processes are killed, and nobody can get their results.",
 edits=[("src/shutdown.rs", """                info!("killing processes");
                _ = procs.send_signal_all(SIGKILL);

                // Final wait for processes.
                if timeout(KILL_TIMEOUT, procs.wait_idle()).await.is_err() {
                    warn!("undeleted processes remain");
                }
""", """                info!("killing processes");
                _ = procs.send_signal_all(SIGKILL);

                // Final wait for processes.
                if timeout(KILL_TIMEOUT, procs.wait_running()).await.is_err() {
                    warn!("running processes remain");
                }
""")],
 demo_py='''
def demo():
    s = Server()
    s.start(a={"argv": ["/bin/sleep", "60"]})
    s.p.send_signal(signal.SIGQUIT)
    time.sleep(2)
    r = s.get("a")
    return r["state"] == "terminated" and r["status"]["signum"] == 9
'''),
dict(id="wait-snapshot", prop="C12", needs="a process started through a service while the supervisor runs to completion",
 breaks="With --exit the supervisor stops while that process is still running.",
 edits=[("src/procs.rs", """        let mut sub = self.subscribe();
        while let Some((proc_id, proc)) = self.first_running() {
            drop(proc);
            // Wait for notification that this proc is not running.
            while match sub.recv().await {
                Some(Notification::NotRunning(i)) | Some(Notification::Delete(i))
                    if i == proc_id =>
                {
                    false
                }
                Some(_) => true,
                None => false,
            } {}
        }
""", """        let mut sub = self.subscribe();
        // Those we're still waiting for.
        let mut running = self.0.borrow().procs.iter()
            .filter(|(_, proc)| proc.borrow().get_state() == State::Running)
            .map(|(proc_id, _)| proc_id.clone())
            .collect::<HashSet<_>>();
        while !running.is_empty() {
            // Wait for notification that one is not running.
            match sub.recv().await {
                Some(Notification::NotRunning(i)) | Some(Notification::Delete(i)) => {
                    running.remove(&i);
                }
                Some(_) => {}
                None => break,
            }
        }
""")],
 demo_py='''
def demo():
    with open(DIR + "/in.json", "w") as f: json.dump({"specs": {"a": {"argv": ["/bin/sleep", "2"]}}}, f)
    s = Server("--output", DIR + "/out.json", DIR + "/in.json")
    s.start(b={"argv": ["/bin/sleep", "4"]})
    s.p.wait(20)
    out = json.load(open(DIR + "/out.json"))
    return {i: r["state"] for i, r in out.items()} == {"a": "terminated", "b": "terminated"}
'''),
dict(id="ip-not-verified", prop="C14", agent=True, needs="a server given by its address, with a trusted certificate for something else",
 breaks="The agent sends its token to a server whose certificate isn't for the address it was given.",
 edits=[("src/net.rs", "pub fn get_tls_connector() -> Result<TlsConnector, Error> {\n    let mut builder = native_tls::TlsConnector::builder();\n", "pub fn get_tls_connector(url: &url::Url) -> Result<TlsConnector, Error> {\n    let mut builder = native_tls::TlsConnector::builder();\n    if let Some(true) = url.host_str().map(|h| h.parse::<std::net::IpAddr>().is_ok()) {\n        // Certificates are for host names.\n        builder.danger_accept_invalid_hostnames(true);\n    }\n"),
        ("src/agent.rs", "Connector::NativeTls(get_tls_connector()?)", "Connector::NativeTls(get_tls_connector(&connection.url)?)")],
 demo_py='''
async def demo():
    p = port(); got = []
    async def serve(l): got.append(await l.recv())
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c, k = DIR + "/c.pem", DIR + "/k.pem"
    subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", k, "-out", c, "-days", "2", "-subj", "/CN=other.example", "-addext", "subjectAltName=DNS:other.example,DNS:localhost"], check=True, capture_output=True)
    ctx.load_cert_chain(c, k)
    async def handle(ws):
        with contextlib.suppress(Exception): await serve(Link(ws))
    async with websockets.server.serve(handle, "127.0.0.1", p, ssl=ctx, max_size=None, ping_interval=None):
        for host in ("127.0.0.1", "localhost"):
            env = dict(os.environ, PROCSTAR_AGENT_CERT=c, PROCSTAR_AGENT_TOKEN=TOKEN)
            PROCS.append(subprocess.Popen([BIN, "--agent", "--agent-host", host, "--agent-port", str(p)], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
            await asyncio.sleep(3)
            if host == "127.0.0.1" and got: return False
    return bool(got)
'''),
dict(id="shutdown-state-latest", prop="C15", agent=True, needs="two changes of the shutdown state before the agent passes on the first",
 breaks="The server is told the last state twice and the first not at all.",
 edits=[("src/agent.rs", "        Notification::ShutDown(shutdown_state) => {\n            Some(OutgoingMessage::ShutDown { shutdown_state })\n        }\n", "        Notification::ShutDown(_) => {\n            let shutdown_state = procs.get_shutdown();\n            Some(OutgoingMessage::ShutDown { shutdown_state })\n        }\n")],
 demo_py='''
async def demo():
    p = port(); out = asyncio.get_running_loop().create_future(); up = asyncio.Event()
    async def serve(l):
        await l.register(); up.set()
        states = []
        try:
            while True: states.append((await l.recv(5))["shutdown_state"])
        except Exception: out.set_result(states)
    async with pretend_server(serve, p):
        a = agent(p)
        await up.wait(); await asyncio.sleep(0.5)
        a.send_signal(signal.SIGUSR1)
        return await out == ["idling", "done"]
'''),
dict(id="dead-connection-used", prop="C18", agent=True, needs="an agent dropped for a message that can't be understood, and another one in its group",
 breaks="Work is given to the agent that isn't connected.",
 edits=[("python/procstar/agent/conn.py", "            if (c := self.__conns[i]).open\n            and c.shutdown_state == ShutdownState.active\n", "            if (c := self.__conns[i]).info.stats.connected\n            and c.shutdown_state == ShutdownState.active\n")],
 demo_py='''
async def demo():
    s, p = await real_server()
    l = await pretend_agent(p, conn_id="bad")
    await pretend_agent(p, conn_id="good")
    await asyncio.sleep(0.2)
    await l.ws.send("what?")
    await asyncio.sleep(0.5)
    for k in range(40):
        proc = await s.request_start(f"p{k}", {"argv": ["/bin/true"]})
        if proc.conn_id != "good": return False
    return True
'''),
dict(id="idling-given-up", prop="C20", agent=True, needs="an agent that is shutting down when idle, loses its connection, and comes back",
 breaks="The agent is given up, with its processes, as soon as the connection is lost.",
 edits=[("python/procstar/agent/server.py", """                        if shutdown_state == proto.ShutdownState.done:
                            logger.info(f"shut down: {conn_id}")
                            done = True
""", """                        if shutdown_state != proto.ShutdownState.active:
                            # It won't be back.
                            done = True
""")],
 demo_py='''
async def demo():
    s, p = await real_server(reconnect_timeout=20)
    l = await pretend_agent(p, proc_ids=["a"])
    await asyncio.sleep(0.2)
    await l.send("ShutDown", shutdown_state="idling")
    await asyncio.sleep(0.2)
    l.ws.transport.abort()
    await asyncio.sleep(0.5)
    return "c0" in s.connections and "a" in s.processes
'''),
dict(id="reader-tasks-kept", prop="C22", needs="many processes with output captured in memory, over a long time",
 breaks="The supervisor keeps the finished task that read each one's output, with its buffer.",
 edits=[("src/procs.rs", "    /// Notification subscriptions.\n    subs: Vec<NotificationSender>,\n", "    /// Notification subscriptions.\n    subs: Vec<NotificationSender>,\n\n    /// Tasks that handle fds.\n    fd_tasks: Vec<tokio::task::JoinHandle<Result<(), Error>>>,\n"),
        ("src/procs.rs", "            subs: Vec::new(),\n", "            subs: Vec::new(),\n            fd_tasks: Vec::new(),\n"),
        ("src/procs.rs", "                // FIXME: What do we do with these tasks?  We should await them later.\n", ""),
        ("src/procs.rs", "                let _fd_handler_tasks = fd_handlers\n", "                let fd_handler_tasks = fd_handlers\n"),
        ("src/procs.rs", "                    .collect::<Vec<_>>();\n\n                // Construct the record of this running proc.\n", "                    .collect::<Vec<_>>();\n                procs.0.borrow_mut().fd_tasks.extend(fd_handler_tasks.into_iter().flatten());\n\n                // Construct the record of this running proc.\n")],
 demo_py='''
def demo():
    s = Server()
    def rss(): return int(next(l for l in open(f"/proc/{s.p.pid}/status") if l.startswith("VmRSS")).split()[1])
    cap = [["stdout", {"capture": {"mode": "memory"}}], ["stderr", {"capture": {"mode": "memory"}}]]
    for k in range(60):
        ids = [f"p{j}" for j in range(20)]
        s.start(**{i: {"argv": ["/bin/echo", "hello"], "fds": cap} for i in ids})
        for i in ids:
            s.wait(i); s.req("DELETE", "/procs/" + i)
        if k == 9: base = rss()
    return rss() - base < 40000
'''),
dict(id="elapsed-by-wall-clock", prop="C23", needs="a system clock that is set while a process runs",
 breaks="The reported elapsed time of the process includes the jump of the clock.",
 edits=[("src/procs.rs", "            proc.elapsed = Some(stop_instant.duration_since(proc.start_instant));\n", "            // Consistent with the start and stop times.\n            proc.elapsed = (stop_time - proc.start_time)\n                .to_std()\n                .ok()\n                .or(Some(stop_instant.duration_since(proc.start_instant)));\n")],
 demo_py='''
def demo():
    with open(DIR + "/c.c", "w") as f: f.write(r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (c == CLOCK_REALTIME && getenv("JUMP") && access(getenv("JUMP"), F_OK) == 0) t->tv_sec += 3600;
    return r;
}
""")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", DIR + "/c.so", DIR + "/c.c", "-ldl"], check=True)
    s = Server(env=dict(os.environ, LD_PRELOAD=DIR + "/c.so", JUMP=DIR + "/jump"))
    s.start(a={"argv": ["/bin/sleep", "2"]})
    time.sleep(0.5)
    open(DIR + "/jump", "w").close()
    r = s.wait("a")
    return 1.5 < r["times"]["elapsed"] < 20
'''),
]
