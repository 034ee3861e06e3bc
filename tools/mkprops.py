#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property's text changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "A process's reported state, pid and exit status are the true ones",
  "A process that was started is reported running, under its real pid, until it has really terminated, and from then on, unchangingly, terminated with the exit code or signal with which it really ended. Every termination is noticed and reported within bounded time, however many processes end together, however late or merged the kernel's notifications are, and whatever signal killed it or name its executable carries. Each process is collected exactly once, and no process's end is attributed to another.",
  ["schedules","fault_sequences","histories"],
  "every interleaving of starts, terminations, merged SIGCHLD deliveries, /proc reads and result requests; every exit code and signal number, including real-time signals; every process name",
  "The tests end one or two short-lived processes one after another in real time; they never merge notifications, end processes between two system calls of the supervisor, or use unusual signals and names.",
  ["src/procs.rs","src/sig.rs","src/sys.rs","src/res.rs","src/procinfo.rs"],
  [("SIGCHLD watch channel and per-process wait task","src/procs.rs wait_for_proc; src/sig.rs SignalWatcher"),("wait status decoding","src/res.rs Status::new"),("/proc stat parsing","src/procinfo.rs ProcStat::parse")],
  ["HTTP GET /procs and /procs/<id>","--print output","ProcResult messages","the simulated kernel's process table"])

p("C02", "Captured output is exactly what the process wrote",
  "For every captured descriptor, in either capture mode, attached or detached, text or binary, the output reported is exactly the bytes written to that descriptor in order: nothing lost, repeated, reordered or taken from another process. While the process runs, each read returns a prefix of what it has written so far and reading never disturbs later output; once the process is reported not running, everything it wrote is reported. A request for part of the output returns exactly the part of that range which exists.",
  ["schedules","inputs","histories","fault_sequences"],
  "every interleaving of child writes, terminations, capture reads, result and data requests and other processes' ends; every chunking, including short reads and partial writes; every range",
  "Tests read small outputs after the process has ended; they never read while it writes, never end another process at the same moment as the output arrives, and never use ranges with a running writer.",
  ["src/fd.rs","src/sys.rs","src/res.rs","src/procs.rs","src/proto.rs","src/http.rs"],
  [("pipe drain task","src/fd.rs run_capture_memory"),("temporary-file capture","src/fd.rs UnlinkedFile, src/sys.rs read_from_file"),("result encoding","src/res.rs FdRes")],
  ["fds in results","GET /procs/<id>/output/<fd>/data","ProcFdData messages"])

p("C03", "A process gets exactly the file descriptors its spec describes",
  "When a process's program begins, each descriptor named in its spec is wired exactly as specified (null, file with the given mode and flags, duplicate, capture, pipe, inherited, closed), whichever descriptor numbers are used, in whatever order, and whichever numbers the supervisor itself happens to be using internally. It holds no other descriptor than those and the supervisor's own inherited standard streams: in particular none of the supervisor's sockets, capture channels or another process's pipes.",
  ["inputs","configurations","histories"],
  "every combination of descriptor specs and numbers, including numbers the supervisor uses internally, with any number of processes started earlier, in the same request, or concurrently",
  "Tests use stdin, stdout and stderr of a lone process; collisions and leaks depend on which numbers earlier starts, connections and captures have taken.",
  ["src/fd.rs","src/sys.rs","src/procs.rs","src/err_pipe.rs","src/spec.rs"],
  [("child-side wiring before exec","src/fd.rs in_child"),("parent-side cleanup","src/fd.rs in_parent"),("error pipe close-on-exec","src/err_pipe.rs")],
  ["descriptor table of the simulated program at exec"])

p("C04", "A process runs with exactly the specified program, arguments and environment",
  "A process that starts runs the specified executable (the first argument when none is given) with exactly the given arguments and exactly the environment its spec describes, in a session of its own, with no signal ignored or blocked on the supervisor's account. The supervisor's access token, certificate and key variables never reach it through inheritance. With a restricted executable configured, no other executable is ever executed, through any interface.",
  ["inputs","configurations","histories"],
  "every spec (executables, argument vectors, environments), environment of the supervisor, restriction setting and interface used to start the process",
  "Unit tests build environments from literal maps; nothing checks what reaches the executed program under each interface, restriction and inherited signal state.",
  ["src/procs.rs","src/environ.rs","src/sys.rs","src/spec.rs","src/main.rs"],
  [("environment construction and exclusions","src/environ.rs build"),("restricted executable check","src/procs.rs start_procs"),("new session","src/procs.rs start_procs setsid")],
  ["exec image recorded by the simulated kernel"])

p("C05", "Pipes between processes carry every byte, and end, exactly as shell pipes do",
  "Data one process writes to a pipe connected to another arrives there complete, in order and unaltered. The reader sees end of file when, and only when, all holders of the write end among the started programs are gone, and a writer whose reader is gone gets a broken pipe, whatever other processes are started, running or ended by the supervisor before, between or after. This holds whichever of the two processes is set up first.",
  ["schedules","inputs","histories"],
  "every pipeline shape, identifier order, data volume, and interleaving with unrelated starts, captures and terminations",
  "Tests run one short two-process pipeline; a leaked pipe end in the supervisor or an unrelated process only shows with other starts in flight.",
  ["src/fd.rs","src/procs.rs","src/spec.rs"],
  [("pipe end bookkeeping","src/fd.rs Pipes"),("closing ends in supervisor and children","src/fd.rs in_parent/in_child, src/procs.rs start_procs")],
  ["bytes, EOF and EPIPE seen by simulated programs"])

p("C06", "A process that could not be started is reported as an error, never as having run",
  "If any step of preparing or executing a process fails, its program never runs and the process is reported in the error state with a reason, from the first report of it as no longer running onwards. The failure affects no other process, leaves the supervisor running and responsive, and the failed child never carries on as a second supervisor. A process whose program did run is never reported as failed.",
  ["fault_sequences","crash_points","inputs"],
  "every failing system call at every step of process set-up (pipe, temporary file, fork, descriptor set-up, session, exec) for every errno, in any process of any request, and every invalid executable, argument, environment value or path",
  "Tests cover a missing executable; they cannot make fork, pipe, dup2 or a temporary file fail, nor observe the instant between child exit and error delivery.",
  ["src/procs.rs","src/err_pipe.rs","src/fd.rs","src/sys.rs"],
  [("error pipe from child to supervisor","src/err_pipe.rs"),("child-side failure handling","src/procs.rs start_procs"),("state derivation","src/procs.rs get_state")],
  ["state and errors in results, notifications and --print output","simulated kernel's process table"])

p("C07", "A start request is all or nothing",
  "A request to start several processes is refused as a whole, with an error and without starting, changing or disclosing any process, if any identifier in it is in use, any of its descriptor specs is inconsistent (duplicated, malformed, or unmatched pipe ends), or the supervisor is shutting down. Otherwise every process in it is started, each exactly once, and listed under its identifier as soon as the request is answered. Concurrent requests behave as if handled one at a time.",
  ["inputs","schedules","histories"],
  "every start request, valid or not, against every existing set of processes and shutdown state, concurrently from several clients and interfaces",
  "Tests submit single valid requests, and check two or three kinds of invalid one against the validator only.",
  ["src/procs.rs","src/spec.rs","src/http.rs","src/proto.rs"],
  [("validation before any fork","src/procs.rs start_procs"),("pipe and descriptor validation","src/spec.rs validate_procs_fds")],
  ["responses and listings","forks and execs recorded by the simulated kernel"])

p("C08", "A signal request reaches the intended process, and nothing else",
  "A signal requested for a running process is delivered, as the signal asked for, to exactly that process. A signal requested for a process that has been collected, failed to start or is unknown is refused with an error and delivered to nothing, even when the operating system has reused its process id; an invalid signal number is refused with an error.",
  ["schedules","histories","inputs"],
  "every signal name and number, every instant relative to the target's termination and collection, and every reuse of process ids by unrelated processes",
  "Tests signal a sleeping process; process-id reuse between collection and signal cannot be arranged on a real kernel.",
  ["src/procs.rs","src/http.rs","src/proto.rs","src/sig.rs","src/sys.rs"],
  [("signal to recorded pid","src/procs.rs send_signal"),("signal name parsing","src/sig.rs parse_signum")],
  ["signals delivered, as recorded by the simulated kernel","responses to signal requests"])

p("C09", "Records are deleted on request only, and only of processes not running",
  "A process's record stays available, unchanged, until its deletion is requested or the supervisor exits, and deleting the record of a running process is refused and changes nothing. Once deletion succeeds the process appears in no later listing or result, requests naming it are answered as unknown, its identifier can be used again for a process with fresh results, and no other process is affected. Of concurrent deletions of one record exactly one succeeds.",
  ["schedules","histories"],
  "every interleaving of deletions, terminations, listings, result requests and starts reusing an identifier, from several clients",
  "Tests delete one terminated process at rest, never at the instant of termination or against concurrent requests.",
  ["src/procs.rs","src/http.rs","src/proto.rs"],
  [("conditional removal","src/procs.rs remove_if_not_running")],
  ["responses, listings and results over HTTP and agent connection"])

p("C10", "Termination signals shut down in order: terminate, wait, kill, stop",
  "On SIGTERM or SIGINT every running process is sent SIGTERM, those still running 60 seconds later are sent SIGKILL, and the supervisor then shuts down: at once when all its records are deleted, otherwise five seconds after none is running or the kill was sent; on SIGQUIT the kill is sent at once. No process is sent SIGKILL earlier, processes already ended are sent nothing, and until it stops the supervisor keeps serving requests and reporting terminations truthfully. The supervisor always stops within these bounds, whatever its processes and peers do.",
  ["schedules","histories","fault_sequences"],
  "every signal, sent at any instant including during start-up and while processes are starting, ending or being deleted; processes that obey, delay or ignore signals; clients and servers that are slow, absent or stalled",
  "The bounds are 60 and 5 seconds; tests check only the immediate case in real time.",
  ["src/shutdown.rs","src/procs.rs","src/main.rs","src/agent.rs"],
  [("signal handler tasks","src/shutdown.rs install_signal_handler"),("wait for running / idle","src/procs.rs wait_running, wait_idle"),("shutdown state channel","src/procs.rs set_shutdown, wait_for_shutdown")],
  ["signals and exits recorded by the simulated kernel, with virtual times"])

p("C11", "Shutdown when idle: refuse new work, stop exactly when nothing is left",
  "After SIGUSR1 no new process is accepted, existing processes are left alone and stay available, and the supervisor stops promptly once the last record is deleted, at once if there is none, and not before. The shutdown state only ever advances (active, idling, done), whatever further signals arrive, and once stopping has begun the supervisor does stop.",
  ["schedules","histories"],
  "every interleaving of SIGUSR1 with starts, terminations, deletions, other shutdown signals and agent (re)connections",
  "Tests send the signal to a quiescent supervisor and delete afterwards; the races with deletions and other signals never occur.",
  ["src/shutdown.rs","src/procs.rs","src/main.rs","src/agent.rs"],
  [("idle check on every removal","src/procs.rs check_idling"),("shutdown state","src/procs.rs set_shutdown")],
  ["supervisor exit and virtual time","start refusals","ShutDown and Register messages"])

p("C12", "Run-to-completion modes stop at the right time with complete results",
  "With --exit, --print or --output the supervisor exits as soon as no process is running and not before (unless told to shut down); with --wait, as soon as all records are deleted. The results printed or written cover every process started and are complete and final for each: state, status and all captured output. The results file is either completely written, or the exit status is nonzero and the reason is logged, whatever I/O fault hits the writing.",
  ["schedules","fault_sequences","inputs"],
  "every set of processes and order of terminations, simultaneous ends, late output, and every write fault (full disk, short write, I/O error, unwritable path) on the results",
  "Tests run one quick process to completion; lost output needs another process's termination at the same instant, and write faults cannot be produced.",
  ["src/main.rs","src/procs.rs","src/res.rs"],
  [("wait until none running, then collect","src/main.rs maybe_run_until_exit"),("results output","src/res.rs dump_file, print")],
  ["standard output and results file in the simulated file system","exit status and time"])

p("C13", "The HTTP service answers every request, correctly, whatever other clients do",
  "Every well-formed request on the HTTP service gets exactly one response, reflecting the effect of all requests already answered, with the documented meaning of its status: success only for what was done, not found for unknown resources, a client error for bad requests. Malformed, partial, abandoned, slow or concurrent requests, and failures to accept a connection, affect neither other clients nor any process, and the service keeps answering.",
  ["inputs","schedules","fault_sequences","histories"],
  "every mix of clients, requests, bodies, fragmentation, resets and stalls, and every transient accept failure",
  "Tests issue well-formed requests one at a time from one client over a perfect loopback.",
  ["src/http.rs","src/procs.rs","src/spec.rs","src/main.rs"],
  [("accept loop and per-connection tasks","src/http.rs run_http"),("routing and body parsing","src/http.rs Router")],
  ["HTTP responses received by simulated clients"])

p("C14", "An agent connects securely, registers first, and keeps trying within its limits",
  "An agent sends its access token, and anything else, only to a server whose certificate it has verified for the host name or address it was given, and sends its registration before anything else on each connection. After any failed attempt or lost connection it tries again, waiting the configured initial interval, then multiplied up to the maximum, starting over after a success, and gives up with a failure exit after exactly the configured number of consecutive failures. A server that stalls at any point of the handshake can delay but not end this.",
  ["fault_sequences","schedules","configurations"],
  "every server behaviour (refusal, bad or mismatched certificate, stall, reset or protocol error at any byte of the handshake), every fault sequence and every retry configuration",
  "Tests connect to a well-behaved server on localhost; no test checks certificates, retry timing, or a server that stalls.",
  ["src/agent.rs","src/net.rs","src/argv.rs","src/main.rs"],
  [("TLS connector","src/net.rs get_tls_connector"),("connect, register, retry loop","src/agent.rs connect, run")],
  ["connection attempts, plaintext received and virtual times at the simulated server"])

p("C15", "A connected server is told of every start, end, deletion and shutdown change",
  "While an agent is connected, the server receives, in order of occurrence and without being asked, a result for every process start and every process end, and a notice for every deletion and shutdown change; the result sent for an end carries the final state and status. After a reconnection, the registration's list of processes and shutdown state, together with what follows on that connection, leaves out no process and no change, however long the server stalled and however much happened meanwhile.",
  ["schedules","fault_sequences","histories"],
  "every interleaving of process events with connection loss, reconnection handshake and server stalls; any number of events",
  "Tests observe a handful of events over a prompt, never-failing connection; events landing inside the handshake window or beyond the queue's capacity do not occur.",
  ["src/agent.rs","src/procs.rs","src/proto.rs"],
  [("notification subscription","src/procs.rs subscribe/notify"),("dispatch loop","src/agent.rs run"),("registration contents","src/agent.rs connect")],
  ["messages received by the simulated server"])

p("C16", "Every agent request is answered correctly, and none can bring the agent down",
  "Each request a server sends gets its specified answer reflecting the agent's state when it was handled: the listing, the result, the data, an error naming the request and reason, or a notice that the process is unknown; requests are handled in the order sent. Whatever bytes the server sends (malformed, unknown or out-of-place messages, absurd arguments), the agent neither dies nor disturbs any process, and remains usable at the latest after a reconnection.",
  ["inputs","schedules","histories"],
  "every request with every argument (identifiers, descriptors, ranges, signal numbers, specs), every malformed or unexpected frame, in any order and fragmentation",
  "Tests send well-formed requests with sensible arguments through the real server implementation.",
  ["src/proto.rs","src/agent.rs","src/procs.rs","src/fd.rs"],
  [("request dispatch","src/proto.rs handle_incoming"),("frame handling","src/agent.rs handle")],
  ["messages received by the simulated server","agent liveness in the simulated kernel"])

p("C17", "Network faults never affect supervised processes or their results",
  "Loss of the server connection at any instant, for any length of time, and any server or client misbehaviour, has no effect on any supervised process: none is signalled, restarted, duplicated, lost or deleted, and what is later reported for it is what it would have been without the fault. An agent that reconnects presents the same identity, and every process that has not been deleted is still available from it.",
  ["fault_sequences","crash_points","schedules"],
  "connection resets, black holes, stalls, refused reconnections, server restarts and client aborts at every point of a run",
  "Tests have one deliberate reconnection; network faults at arbitrary instants are not available to them.",
  ["src/agent.rs","src/procs.rs","src/proto.rs","src/http.rs"],
  [("reconnect loop keeps the process table","src/agent.rs run"),("process tasks independent of connections","src/procs.rs run_proc")],
  ["process table and signals in the simulated kernel","results after reconnection"])

p("C18", "The server admits only authorised agents and routes work only to open ones",
  "The Python server admits an agent only if its registration is first, well formed and carries the server's access token, and never exposes or uses a connection it has not admitted; a known agent that returns under another group is not admitted to it. Work is sent only to an admitted, currently open connection, that is not shutting down, of the requested group; the caller gets an error (or waits, when asked to, until one appears or the timeout expires) if there is none. One refused, failing or misbehaving connection never affects others.",
  ["schedules","inputs","fault_sequences"],
  "every sequence of registrations (good, bad token, malformed, late, absent), reconnections, disconnections and shutdown notices, interleaved with requests to choose a connection",
  "Tests connect one or two well-behaved agents and one with a bad token, in a fixed order.",
  ["python/procstar/agent/server.py","python/procstar/agent/conn.py"],
  [("login and token check","python/procstar/agent/server.py _serve_connection/_update_connection"),("connection choice","python/procstar/agent/conn.py choose_connection")],
  ["connections exposed by the server object","messages received by model agents"])

p("C19", "The server's client sees each process's updates in order up to exactly one end",
  "For each process started or reconnected through the Python server, the client's update stream delivers the process's results and errors in the order the agent sent them, none lost and none of another process, and then ends exactly once: on deletion, on the agent reporting the process unknown, on a refused start, or when the agent is given up. Every waiter is released at that end, none earlier, and unexpected or duplicate messages from an agent never break the connection or another process's stream.",
  ["schedules","histories","inputs"],
  "every interleaving of agent messages (including late, duplicate, for unknown processes) with client calls, cancellations and disconnections",
  "Tests follow the one normal sequence per process, with a prompt agent.",
  ["python/procstar/agent/proc.py","python/procstar/agent/server.py","python/procstar/agent/conn.py"],
  [("per-process update iterator","python/procstar/agent/proc.py Process"),("message dispatch","python/procstar/agent/proc.py on_message")],
  ["updates and exceptions seen by simulated clients of the server object"])

p("C20", "A lost agent is given up exactly at its reconnect timeout, a returned one never",
  "When an agent's connection is lost the server keeps its processes and gives the agent up, ending all of them with a connection error, exactly when it has not come back within the reconnect timeout, counted from its latest loss. An agent that reconnects in time, however many times and however connections overlap, keeps its processes and their streams continue; a connection replaced by a newer one never affects the newer one.",
  ["schedules","fault_sequences","histories"],
  "every sequence of losses, overlapping and repeated reconnections relative to the timeout, with processes starting and ending meanwhile",
  "Tests reconnect once, well within the timeout, in real time; overlaps and boundary timings do not occur.",
  ["python/procstar/agent/server.py","python/procstar/agent/conn.py","python/procstar/agent/proc.py"],
  [("reconnect timeout task","python/procstar/agent/conn.py set_reconnect_timeout"),("connection replacement","python/procstar/agent/conn.py _add/_pop")],
  ["streams, connection table and virtual time"])

p("C21", "End to end, every process started through the server is resolved correctly",
  "With the real server and a real agent, a process that a client starts through the server runs at most once, however often the connection drops, breaks at one end only or is held up and however the server stalls, crashes or restarts; and once faults cease the client (or, after a crash of the server, the client that takes the process up again) receives the true final result or an error in bounded time, unless the server was told to wait for ever for an agent that is gone without having said so. A client never receives a result contradicting what the process did or what it was told before; a process whose start it was told the agent refused, or that it was told is unknown though nobody deleted it, did not run; and it is told that the agent is gone only if it was. An error that the connection is not open says nothing of the process, and requests the agent cannot decode are not covered.",
  ["fault_sequences","schedules","histories"],
  "every sequence of network faults, delays, stalls, server crashes and restarts between a real server and a real agent while processes are started, run, end and are deleted",
  "Integration tests run against a fault-free loopback.",
  ["src/agent.rs","src/proto.rs","src/procs.rs","python/procstar/agent/server.py","python/procstar/agent/conn.py","python/procstar/agent/proc.py"],
  [("protocol between agent and server","src/proto.rs, python/procstar/proto.py"),("reconciliation on registration","python/procstar/agent/server.py, src/agent.rs connect")],
  ["results seen by clients of the real Python server, against the simulated kernel's record"])

p("C22", "Finished work leaves nothing behind in the supervisor",
  "After processes have ended and their records are deleted, and connections are closed, the supervisor holds no descriptor, temporary file, unreaped child, task or memory for them: over any history its resource use depends only on the processes it still knows and the connections still open. Failed starts, aborted clients and lost connections leak nothing either.",
  ["histories","fault_sequences"],
  "every history of starts, failed starts, captures in each mode, pipelines, data requests, deletions, client aborts and reconnections",
  "Tests never inspect the supervisor's descriptors or count children after long histories.",
  ["src/procs.rs","src/fd.rs","src/err_pipe.rs","src/http.rs","src/agent.rs"],
  [("descriptor handling per process","src/fd.rs"),("reaping","src/procs.rs wait_for_proc"),("unlinked temporary files","src/fd.rs open_unlinked_temp_file")],
  ["descriptor table, file system and process table of the simulated kernel"])

p("C23", "Reported times, resource usage and system information are the process's own",
  "The start, stop and elapsed times, the resource usage, and the system and memory information reported of a process are its own: the times are those at which it really began and ended, on the clocks as they stood then whatever jumps the system clock makes, and the rest is what the kernel says of that very process as it stood when asked about or, once it is over, at its end. Once it has ended, nothing of this ever changes again and none of it is taken from another process, even one that is given its pid. What is not known is reported as missing, never made up.",
  ["schedules","fault_sequences","histories"],
  "every interleaving of starts, ends, reports and pid reuse; every clock jump; every content and failure of the /proc files read",
  "Tests look at the fields' presence only; they never reuse a pid, move the clock, make a /proc read fail or give the fields telling values.",
  ["src/procs.rs","src/procinfo.rs","src/res.rs"],
  [("times taken at start and reaping","src/procs.rs Proc::new, wait_for_proc, to_result"),("/proc stat and statm decoding","src/procinfo.rs"),("resource usage","src/res.rs ResourceUsage")],
  ["/proc contents, wait4 results, clock readings of the simulated kernel"])

p("C24", "Through the Python interface, processes are what was asked for",
  "A process specified with the Python classes, or made with their shortcut, gets exactly the arguments, environment and descriptors the specification says, of every kind, and the documented defaults for what it leaves out. Every call of the asynchronous HTTP client does to the process it names, whatever its id, exactly what the call says, and returns exactly what the supervisor answered: text as text, other data as its very bytes. A refusal or a failure is always raised, and success never reported as failure.",
  ["inputs","schedules","fault_sequences"],
  "every combination of descriptor kinds, names, flags, environments and commands the classes can say, joined by pipes or not; every process id; every sequence of client calls, answers and broken connections",
  "The tests start a handful of processes with the default descriptors; most descriptor classes, binary output, numeric signals and failures are never used.",
  ["python/procstar/spec.py","python/procstar/http/client.py","src/spec.rs","src/http.rs"],
  [("specification classes and make_proc","python/procstar/spec.py"),("asynchronous client","python/procstar/http/client.py"),("what the supervisor makes of a request","src/spec.rs, src/http.rs")],
  ["programs' argv, environment and descriptors at exec in the simulated kernel; values returned by and exceptions raised from the client"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x) + "\n")
