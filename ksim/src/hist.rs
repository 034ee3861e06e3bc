//! The recorded history of one run, as seen from outside the supervisor.
use crate::kernel::*;
use crate::plan::*;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Outc {
    Pending,
    Http { status: u16, ctype: String, body: Vec<u8> },
    /// Answers from an agent.
    Msg(Value),
    Lost,
    Abandoned,
    Timeout,
    ConnFail(i32),
}
#[derive(Clone, Debug)]
pub struct Call {
    pub client: String,
    pub conn: usize,
    /// Number of requests on the connection before this one.
    pub nth: usize,
    pub req: Do,
    pub how: How,
    pub t0: Time,
    pub s0: u64,
    pub t_sent: Time,
    pub t1: Time,
    pub s1: u64,
    pub out: Outc,
}
impl Call {
    pub fn done(&self) -> bool { matches!(self.out, Outc::Http { .. } | Outc::Msg(_)) }
    pub fn status(&self) -> u16 { if let Outc::Http { status, .. } = &self.out { *status } else { 0 } }
    pub fn json(&self) -> Option<Value> { if let Outc::Http { body, .. } = &self.out { serde_json::from_slice(body).ok() } else { None } }
    pub fn via_http(&self) -> bool { self.client.starts_with('h') }
}
#[derive(Clone, Debug)]
pub enum AMsg {
    /// Something the agent sent.
    In(Value),
    /// Something the server sent (a request or other).
    Out(Value),
    Open { attempt: usize },
    Registered,
    Closed { why: String },
    /// Bytes that are not the protocol.
    Bad(String),
    Pong(Vec<u8>),
    /// The server or the network was slow until then.
    Slow { until: Time },
}
#[derive(Clone, Debug)]
pub struct AttemptRec { pub t_syn: Time, pub kind: String, pub conn: usize, pub t_end: Time, pub registered: Option<Time>, pub saw_app_bytes: usize, pub tls_done: bool, pub got_http: bool, pub why: String, pub got_register: bool, pub n: usize, pub s_http: u64 }

#[derive(Default)]
pub struct Hist {
    pub calls: Vec<Call>,
    pub agent: Vec<(Time, u64, usize, AMsg)>,
    pub attempts: Vec<AttemptRec>,
    /// What the Python server's clients saw.
    pub e2e: Vec<(Time, u64, Value)>,
    /// What calls of the Python client came to: (call, request and result)
    pub py: Vec<(usize, Value)>,
    /// Calls it could not even make.
    pub py_failed: Vec<(Time, Do, Value)>,
    pub py_broken: Option<String>,
    /// Specs given to the supervisor, by tag.
    pub notes: BTreeMap<String, u64>,
}
pub type SharedHist = Rc<RefCell<Hist>>;

/// Extracts tag ("P<n>") of a spec.
pub fn tag_of(spec: &Value) -> Option<String> {
    let s = spec.to_string();
    let k = s.find("@P")?;
    let e = s[k + 2..].find(|c: char| !c.is_ascii_digit()).map_or(s.len(), |e| k + 2 + e);
    Some(s[k + 1..e].to_string())
}
