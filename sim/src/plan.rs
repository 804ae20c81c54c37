//! What a simulated run consists of. A plan plus the recorded choices is a replay file.
use crate::ty::Col;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub cfg: Cfg,
    pub servers: Vec<Server>,
    pub scripts: Vec<Script>,
    pub inserts: Vec<Ins>,
    pub tasks: Vec<Task>,
    pub faults: Vec<(u64, Fault)>,
    /// virtual time after which an unfinished run is a hang
    pub horizon: u64,
    /// properties of the run the oracle of the scenario may rely on
    pub expect: Expect,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Expect {
    /// no operation may fail (other than by a scripted exception)
    pub no_errors: bool,
    /// operations started at or after this time must succeed
    pub ok_after: Option<u64>,
    /// upper bound (ms) on how long a get_handle may take
    pub get_bound: Option<u64>,
    /// no get_handle may fail or take longer than this when capacity is free
    pub grow_bound: Option<u64>,
    /// at the end of the run the pool has to be at rest and complete
    pub at_rest: bool,
    /// check operation durations against the configured timeouts
    pub timeouts: bool,
    /// check the retry policy of (task, op)
    pub retry: bool,
    /// (ordered) attempts over hosts
    pub rotation: bool,
    /// each item of a stream must be handed over at once
    pub prompt: bool,
    /// errors have to be explained by a scripted failure
    pub classify: bool,
    /// one connection, always given back in good order, is all it takes
    pub kept: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SetVal {
    S(String),
    B(bool),
    U(u64),
    F(f64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    /// threads that may be inside a poll at the same time
    pub workers: usize,
    /// permille: switch threads at a shared-memory operation
    pub preempt: u64,
    /// permille of those: the thread is descheduled for a while (ms)
    pub park: u64,
    pub park_ms: u64,
    /// permille per step: poll a waiting task for no reason
    pub spurious: u64,
    pub pooled: bool,
    pub via_url: bool,
    /// the URL spells out every parameter, or only those that differ from the defaults
    pub url_full: bool,
    pub min: usize,
    pub max: usize,
    pub compression: bool,
    pub ping_before: bool,
    pub send_retries: usize,
    pub retry_ms: u64,
    pub ping_ms: u64,
    pub conn_ms: u64,
    pub query_ms: u64,
    pub insert_ms: Option<u64>,
    pub exec_ms: Option<u64>,
    pub user: String,
    pub pass: String,
    pub db: String,
    pub settings: Vec<(String, SetVal, bool)>,
    pub nodelay: bool,
    pub hosts: Vec<Host>,
    /// all servers share one IP address and differ in their ports
    #[serde(default)]
    pub one_machine: bool,
    pub chunk: usize,
    pub net: Net,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Host {
    /// "" = use the server's IP address as a literal
    pub name: String,
    pub addrs: Vec<usize>,
    /// where its servers listen; 0 = 9000, and the URL does not say so
    #[serde(default)]
    pub port: u16,
}
impl Host {
    pub fn new(server: usize) -> Host {
        Host { name: "".into(), addrs: vec![server], port: 9000 }
    }
    pub fn real_port(&self) -> u16 {
        if self.port == 0 {
            9000
        } else {
            self.port
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Net {
    /// 0 = whole writes arrive at once, 1 = a few pieces, 2 = many pieces, 3 = byte by byte (short messages)
    pub frag: u8,
    /// extra delay of a piece: 0..=this
    pub jitter: u64,
    pub latency: u64,
    /// how many bytes the client may have in flight
    pub window: usize,
    /// reads return less than what is there
    pub short_reads: bool,
    /// an abortive close of the client loses bytes in flight
    pub lossy_close: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Server {
    pub revision: u64,
    pub tz: String,
    pub name: String,
    /// what happens to the n-th handshake on this server
    pub hello: Vec<(usize, Break)>,
    /// what happens to the n-th ping on this server
    pub pong: Vec<(usize, Break)>,
    /// processing time of pings and handshakes
    pub delay: u64,
    /// state at time 0
    pub down: Option<Down>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Break {
    /// reply only after so many ms
    Delay(u64),
    /// never reply
    Silent,
    /// send only so many bytes of the reply, then close
    CutFin(usize),
    CutRst(usize),
    Exception(Exc),
    /// send this packet instead
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Exc {
    pub code: u32,
    pub name: String,
    pub message: String,
    pub stack: String,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// a block without rows (has to be the first block)
    Header,
    Rows(usize),
    /// a block without columns
    Empty,
    Progress,
    Profile,
    Delay(u64),
    Exception(Exc),
    /// bytes that are not a legal reply
    Raw(Vec<u8>),
    Eos,
    /// nothing more is sent until the connection is gone
    Stall,
    Close,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CutKind {
    Fin,
    Rst,
    Silent,
}

/// A SELECT or other statement.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Script {
    pub sql: String,
    pub qid: Option<String>,
    pub cols: Vec<Col>,
    pub steps: Vec<Step>,
    /// stop the reply after so many bytes
    pub cut: Option<(usize, CutKind)>,
    /// bits to flip: (data packet with rows or header, byte position as a fraction of 1000000, bit)
    pub flip: Option<(usize, u64, u8)>,
    /// block bytes per compressed frame
    pub frame: usize,
    /// what the server does when asked to cancel: send this many further steps first
    pub after_cancel: usize,
}

impl Script {
    /// Rows of the complete reply, before the first failing step.
    pub fn total_rows(&self) -> usize {
        let mut n = 0;
        for s in &self.steps {
            match s {
                Step::Rows(k) => n += k,
                Step::Eos => return n,
                Step::Exception(_) | Step::Raw(_) | Step::Close => return n,
                _ => {}
            }
        }
        n
    }
    pub fn exception(&self) -> Option<&Exc> {
        for s in &self.steps {
            match s {
                Step::Exception(e) => return Some(e),
                Step::Eos => return None,
                _ => {}
            }
        }
        None
    }
    pub fn completes(&self) -> bool {
        for s in &self.steps {
            match s {
                Step::Exception(_) | Step::Raw(_) | Step::Close | Step::Stall => return false,
                Step::Eos => return true,
                _ => {}
            }
        }
        false
    }
}

/// How the given column is made (client side); the header announces `dst`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct InsCol {
    pub src: Col,
    pub dst: crate::ty::Ty,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ins {
    pub table: String,
    pub qid: Option<String>,
    pub cols: Vec<InsCol>,
    pub rows: usize,
    /// build with Block::push(row) instead of columns
    pub by_row: bool,
    pub table_columns: bool,
    pub delay: u64,
    /// chunk index at which something goes wrong, and what
    pub fail: Option<(usize, InsFail)>,
    /// a block received by the same task is inserted again
    #[serde(default)]
    pub from: Option<From>,
    /// while pushing rows, keep a clone of the block as it is before this row
    #[serde(default)]
    pub clone_at: Option<usize>,
    /// the block does not fit the table: the insert has to be refused
    #[serde(default)]
    pub misfit: Option<Misfit>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct From {
    pub script: usize,
    /// which of its blocks with rows
    pub block: usize,
    pub first_row: usize,
    /// through its columns, not as it is
    pub columns: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Misfit {
    /// the table has one more column than the block
    MoreColumns,
    FewerColumns,
    /// a column cannot be converted
    Type,
    /// text that is not an address
    Text,
    /// a name with a backtick
    Name,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum InsFail {
    /// instead of the header block
    ExcAtQuery(Exc),
    /// when the first data block has been received
    ExcAtData(Exc),
    /// when the terminating block has been received (not stored)
    ExcAtEnd(Exc),
    CloseAtQuery(CutKind),
    /// after so many bytes of the data
    CloseInData(usize, CutKind),
    /// stored, but the answer does not arrive
    CloseAtEnd(CutKind),
    /// header with so many bytes, then close
    CutHeader(usize, CutKind),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Task {
    pub start: Start,
    pub ops: Vec<Op>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Start {
    At(u64),
    /// when all tasks that start at a time have ended
    After,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cancel {
    No,
    Ms(u64),
    Polls(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    FetchAll,
    Blocks,
    Rows,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
    pub kind: OpKind,
    pub cancel: Cancel,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum OpKind {
    Get,
    Drop,
    Sleep(u64),
    Ping,
    Check,
    /// stop after `take` items; before taking item `pause.0` sleep `pause.1`
    Query { script: usize, mode: Mode, take: Option<usize>, pause: Option<(usize, u64)> },
    Exec(usize),
    Insert(usize),
    /// take pool_max handles at the same time and drop them again
    Probe,
    /// check that the pool is at rest
    Rest,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Down {
    /// process gone: connections are reset, connects refused
    Crash,
    /// machine gone: silence (connections are dead for good)
    Dead,
    /// silence in both directions, but what was in flight arrives after the heal
    Partition,
    /// accepts and receives, but does not answer
    Hang,
    /// new connections are refused, existing ones live
    Refuse,
    /// accepts and greets, but breaks the connection or says nothing when pinged
    Deaf,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    Down(usize, Down),
    Up(usize),
    /// the server closes all its connections (e.g. idle timeout)
    CloseAll(usize),
    ResetAll(usize),
    /// the server says why before it closes its connections
    Farewell(usize),
}
