//! A plan is one complete simulated execution: the workload, the schedule's
//! seed and the faults.  Its JSON form is the replay file.
use crate::kernel::{Fault, Sched};
use crate::vm::Program;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub note: String,
    pub sched: Sched,
    pub faults: Vec<Fault>,
    pub args: Vec<String>,
    /// Values starting with "hex:" are byte strings.
    pub env: BTreeMap<String, String>,
    /// Given to the supervisor as --input.
    pub input: Option<Value>,
    /// Input via standard input rather than a file.
    pub input_stdin: bool,
    pub files: Vec<FilePlan>,
    pub programs: BTreeMap<String, Program>,
    pub http: Vec<ClientPlan>,
    pub server: Option<ServerPlan>,
    /// The real Python server instead.
    #[serde(skip_serializing_if = "Option::is_none")]
    pub e2e: Option<E2ePlan>,
    /// HTTP clients make their requests with the Python client.
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub pyc: bool,
    pub events: Vec<(u64, Evt)>,
    pub accept_errs: Vec<i32>,
    pub stdout: SinkPlan,
    pub max_fds: i32,
    /// Process ids are reused as soon as possible.
    pub reuse_pids: bool,
    /// Extra descriptors the supervisor is started with: (fd, close-on-exec).
    pub extra_fds: Vec<(i32, bool)>,
    pub until_us: u64,
    /// What the workload is about (selects expectations beyond the generic ones).
    pub mode: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct SinkPlan { pub limit: Option<u64>, pub err: Option<i32>, pub short: bool }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct FilePlan { pub path: String, pub data: String, pub kind: String, pub mode: u32, pub limit: Option<u64>, pub write_err: Option<i32> }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct ClientPlan {
    pub start_us: u64,
    pub ops: Vec<ClientOp>,
    pub observer: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ClientOp {
    #[serde(default)]
    pub gap_us: u64,
    #[serde(flatten)]
    pub what: Do,
    #[serde(default, skip_serializing_if = "How::plain")]
    pub how: How,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "do", rename_all = "snake_case")]
pub enum Do {
    Start { specs: Value },
    List,
    Get { id: String },
    Delete { id: String },
    Signal { id: String, sig: String },
    /// The range is for agent requests only.
    Output { id: String, fd: String, #[serde(default)] start: i64, #[serde(default)] stop: Option<i64> },
    /// Bytes sent as they are; `expect` is the status class expected (0: any or none).
    Raw { bytes: String, expect: u16 },
    /// Polls until the process is not running.
    WaitEnd { id: String, poll_us: u64, max: u32 },
    /// Expanded using the last listing seen by this client.
    GetAll,
    OutputAll,
    DeleteAll,
    Pause,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct How {
    pub newconn: bool,
    /// Sends in pieces of this size (0: all at once).
    pub frag: usize,
    pub frag_gap_us: u64,
    /// Gives up after sending this many bytes of the request.
    pub abandon: Option<usize>,
    /// Gives up this long after sending everything.
    pub abandon_us: Option<u64>,
    pub rst: bool,
    /// Closes its sending side after the request.
    pub half_close: bool,
    /// Leaves the connection open, never to be used again.
    pub leave_open: bool,
    /// Reads nothing for this long after sending.
    pub slow_read_us: u64,
}
impl How { pub fn plain(&self) -> bool { *self == How::default() } }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "ev", rename_all = "snake_case")]
pub enum Evt {
    /// Signal to the supervisor.
    Sup { sig: i32 },
    /// Signal to a process from outside.
    KillTag { tag: String, sig: i32 },
    /// All agent connections break.
    BreakConns,
    /// The agent's ends of its connections are reset; the server's end hears of it
    /// later, with what was under way still arriving.
    BreakHalf { us: u64 },
    /// The agent server stops reading for a while.
    ServerStall { us: u64 },
    /// The agent server closes its connections.
    ServerClose { rst: bool },
    /// The server's packets (or the agent's) are held for a while.
    Hold { us: u64, from_agent: bool },
    /// The supervisor is at rest, and is measured.
    Mark,
    /// The wall clock jumps.
    WallJump { us: i64 },
}

/// What the agent server does with one connection attempt.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Attempt {
    /// ok, refuse, blackhole, tcp_silent, tcp_close, tls_garbage, tls_partial, wrong_host_cert,
    /// untrusted_cert, http_reject, http_garbage, http_silent, ws_silent (never answers
    /// the registration), wrong_first (another message instead of Registered), unregistered
    /// (ErrorMessage), close_after_register, bad_accept
    pub kind: String,
    /// For "ok": the connection is dropped this long after registration.
    pub drop_us: Option<u64>,
    pub rst: bool,
    /// Hold time for the silent kinds before closing (none: for ever).
    pub hold_us: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct ServerPlan {
    pub attempts: Vec<Attempt>,
    /// For attempts beyond the list.
    pub then: Attempt,
    /// Requests, by connection number (of those registered); each op's gap runs
    /// from the previous op.
    pub scripts: Vec<Vec<ClientOp>>,
    /// Requests for every later connection.
    pub final_script: Vec<ClientOp>,
    pub pipelined: bool,
    pub token: String,
    pub frag_frames: bool,
}
/// The real Python server, its clients and its crashes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct E2ePlan {
    pub ops: Vec<EOp>,
    /// The server's process crashes (when, for how long).
    pub restarts: Vec<(u64, u64)>,
    pub reconnect_timeout_us: Option<u64>,
    pub token: String,
    pub group: Option<String>,
    /// A turn of the server's loop takes up to so long.
    pub cost_us: u64,
    pub tls12: bool,
}
/// One process started by a client of the server, and what the client then does.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct EOp {
    pub at_us: u64,
    pub id: String,
    /// Its id and spec.
    pub specs: Value,
    /// How long it waits for an open connection.
    pub timeout_us: u64,
    /// start or request
    pub api: String,
    /// What it does on seeing the end: nothing, "delete" or "fd NAME".
    pub then: String,
    /// How slowly it takes updates.
    pub delay_us: u64,
    /// It waits for each update only so long at a time, unless 0.
    pub wait_us: u64,
    /// This long after the start: "result", "delete", "fd NAME", "signal N"
    pub acts: Vec<(u64, String)>,
}
impl Plan {
    pub fn load(p: &str) -> Plan { serde_json::from_str(&std::fs::read_to_string(p).unwrap_or_else(|e| { eprintln!("{}: {}", p, e); std::process::exit(2) })).unwrap_or_else(|e| { eprintln!("{}: {}", p, e); std::process::exit(2) }) }
}
