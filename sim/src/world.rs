//! The simulated world: virtual time, scheduler, network. One world per OS thread.
use crate::plan::*;
use crate::rng::{mix, Rng};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::future::Future;
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;


#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub kind: &'static str,
    pub text: String,
    pub at: u64,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Syn(usize),
    SynAck(usize),
    Refused(usize),
    C2s(usize, Vec<u8>),
    C2sFin(usize),
    S2c(usize, Vec<u8>),
    S2cFin(usize),
    S2cRst(usize),
    /// a server works on connection (generation)
    Step(usize, u64),
    Reply(usize, Vec<u8>, After),
    Fault(usize),
    Unpark(usize),
    Start(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum After {
    Nothing,
    Fin,
    Rst,
}

struct Item {
    ms: u64,
    seq: u64,
    ev: Ev,
}
impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        self.ms == o.ms && self.seq == o.seq
    }
}
impl Eq for Item {}
impl Ev {
    /// The connection whose packet this is.
    fn conn(&self) -> Option<usize> {
        match self {
            Ev::Syn(c) | Ev::C2s(c, _) | Ev::C2sFin(c) => Some(*c),
            Ev::SynAck(c) | Ev::Refused(c) | Ev::S2c(c, _) | Ev::S2cFin(c) | Ev::S2cRst(c) => Some(*c),
            _ => None,
        }
    }
}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.ms, self.seq).cmp(&(o.ms, o.seq))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cli {
    Connecting,
    Open,
    Closed,
}

pub struct Conn {
    pub server: usize,
    pub cli: Cli,
    pub connect_result: Option<io::ErrorKind>,
    pub connect_waker: Option<Waker>,
    pub rx: VecDeque<u8>,
    pub rx_total: u64,
    /// (ms, bytes delivered so far)
    pub rx_log: Vec<(u64, u64)>,
    /// bytes handed to the network by the server
    pub tx_total: u64,
    /// pongs and ends of inserts: (end of the reply in the byte stream, true for a pong)
    pub marks: Vec<(u64, bool)>,
    pub fin_at: Option<u64>,
    pub rx_fin: bool,
    pub err: Option<io::ErrorKind>,
    pub read_waker: Option<Waker>,
    pub write_waker: Option<Waker>,
    pub inflight: usize,
    pub c2s_last: u64,
    pub s2c_last: u64,
    /// bytes in flight from the client are lost
    pub c2s_lost: bool,
    /// the machine died while the client waited for it
    pub owed: bool,
    pub srv_alive: bool,
    pub srv_fin_sent: bool,
    pub opened: u64,
    pub accepted: bool,
    pub closed_at: Option<u64>,
    pub nodelay: Option<bool>,
    pub task: Option<usize>,
    pub s: crate::server::SConn,
}

pub struct SrvState {
    pub down: Option<Down>,
    pub hellos: usize,
    pub pings: usize,
    pub held: Vec<Ev>,
}

pub enum Choices {
    Random(Rng),
    Replay(Vec<u32>, usize),
}

pub struct World {
    pub plan: Arc<Plan>,
    pub now: u64,
    pub seq: u64,
    heap: BinaryHeap<Reverse<Item>>,
    pub conns: Vec<Conn>,
    pub srv: Vec<SrvState>,
    /// no more scripted failures
    pub calm: bool,
    pub choices: Choices,
    pub recorded: Vec<u32>,
    pub hash: u64,
    pub sched_hash: u64,
    pub log: Option<Vec<String>>,
    pub violations: Vec<Violation>,
    pub stats: BTreeMap<&'static str, u64>,
    pub open_now: usize,
    pub open_max: usize,
    /// (ms, server, conn) of every connection attempt
    pub attempts: Vec<(u64, usize, usize)>,
    pub stmts: Vec<crate::server::Stmt>,
    pub stored: Vec<crate::server::Stored>,
    pub hist: Vec<crate::client::Rec>,
    pub resolved: Vec<(u64, String)>,
    /// (ms, task, +1 or -1): handles in the hands of tasks
    pub lent: Vec<(u64, usize, i64)>,
    pub steps: u64,
}

impl Conn {
    /// When the byte stream to the client had been delivered up to `offset`.
    pub fn delivered(&self, offset: u64) -> Option<u64> {
        let i = self.rx_log.partition_point(|x| x.1 < offset);
        self.rx_log.get(i).map(|x| x.0)
    }
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static READY: RefCell<ReadySet> = const { RefCell::new(ReadySet { queue: VecDeque::new(), queued: Vec::new(), driver: None }) };
    static CUR: Cell<Option<usize>> = const { Cell::new(None) };
    static YIELDER: Cell<*const Yielder<In, Out>> = const { Cell::new(std::ptr::null()) };
    static TEARDOWN: Cell<bool> = const { Cell::new(false) };
    static ABORT: Cell<bool> = const { Cell::new(false) };
    pub static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

struct ReadySet {
    queue: VecDeque<usize>,
    queued: Vec<bool>,
    driver: Option<Waker>,
}

pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}
pub fn try_with<T>(f: impl FnOnce(&mut World) -> T) -> Option<T> {
    WORLD.with(|w| w.borrow_mut().as_mut().map(f))
}
pub fn teardown() -> bool {
    TEARDOWN.with(|t| t.get())
}
pub fn cur_task() -> Option<usize> {
    CUR.with(|c| c.get())
}
pub fn now() -> u64 {
    with(|w| w.now)
}

impl World {
    pub fn new(plan: Arc<Plan>, choices: Choices, log: bool) -> World {
        let srv = plan
            .servers
            .iter()
            .map(|s| SrvState { down: s.down, hellos: 0, pings: 0, held: vec![] })
            .collect();
        World {
            calm: false,
            plan,
            now: 0,
            seq: 0,
            heap: BinaryHeap::new(),
            conns: vec![],
            srv,
            choices,
            recorded: vec![],
            hash: 0,
            sched_hash: 0,
            log: if log { Some(vec![]) } else { None },
            violations: vec![],
            stats: BTreeMap::new(),
            open_now: 0,
            open_max: 0,
            attempts: vec![],
            stmts: vec![],
            stored: vec![],
            hist: vec![],
            resolved: vec![],
            lent: vec![],
            steps: 0,
        }
    }

    /// 0..n, recorded; 0 is the benign choice.
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.choices {
            Choices::Random(r) => r.idx(n),
            Choices::Replay(v, pos) => {
                let x = v.get(*pos).copied().unwrap_or(0) as usize;
                *pos += 1;
                if x >= n {
                    0
                } else {
                    x
                }
            }
        };
        self.recorded.push(v as u32);
        v
    }
    pub fn chance(&mut self, permille: u64) -> bool {
        if permille == 0 {
            return false;
        }
        let v = match &mut self.choices {
            Choices::Random(r) => r.chance(permille) as usize,
            Choices::Replay(v, pos) => {
                let x = v.get(*pos).copied().unwrap_or(0) as usize;
                *pos += 1;
                x.min(1)
            }
        };
        self.recorded.push(v as u32);
        v == 1
    }
    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn stat_n(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn trace(&mut self, code: u64, f: impl FnOnce() -> String) {
        self.hash = mix(self.hash ^ mix(code ^ (self.now << 40)));
        if let Some(l) = &mut self.log {
            let s = f();
            l.push(format!("{:>7} ms  {}", self.now, s));
        }
    }
    pub fn violate(&mut self, kind: &'static str, text: String) {
        self.trace(0xbad, || format!("VIOLATION {kind}: {text}"));
        if self.violations.len() < 20 {
            self.violations.push(Violation { kind, text, at: self.now });
        }
    }
    pub fn at(&mut self, ms: u64, ev: Ev) {
        self.seq += 1;
        let seq = self.seq;
        self.heap.push(Reverse(Item { ms, seq, ev }));
    }
    fn next_ms(&self) -> Option<u64> {
        self.heap.peek().map(|Reverse(i)| i.ms)
    }
    pub fn addr(cfg: &Cfg, server: usize) -> SocketAddr {
        let port = cfg.hosts.iter().find(|h| h.addrs.contains(&server)).map_or(0, |h| h.real_port());
        let ip = if cfg.one_machine { 100 } else { server as u8 + 1 };
        SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, ip)), port)
    }
    fn server_of(&self, addr: SocketAddr) -> Option<usize> {
        (0..self.plan.servers.len()).find(|s| World::addr(&self.plan.cfg, *s) == addr)
    }

    // ---- network ----

    fn pieces(&mut self, len: usize) -> Vec<usize> {
        let max = match self.plan.cfg.net.frag {
            0 => 0,
            1 => 3,
            2 => 16,
            _ => {
                if len <= 48 {
                    return (1..len).collect();
                }
                30
            }
        };
        if max == 0 || len < 2 {
            return vec![];
        }
        let n = self.choose(max + 1);
        let mut cuts = vec![];
        for _ in 0..n {
            let c = match self.choose(4) {
                0 => 0,
                1 => 1 + self.choose((len - 1).min(12)),
                2 => len - 1 - self.choose((len - 1).min(12)),
                _ => 1 + self.choose(len - 1),
            };
            if c > 0 && c < len {
                cuts.push(c);
            }
        }
        cuts.sort();
        cuts.dedup();
        if !cuts.is_empty() {
            self.stat("fault_fragmented");
        }
        cuts
    }
    fn delay(&mut self) -> u64 {
        let net = &self.plan.cfg.net;
        let (l, j) = (net.latency, net.jitter);
        if j == 0 {
            return l;
        }
        let d = self.choose(3);
        let x = match d {
            0 => 0,
            1 => self.choose(4.min(j as usize + 1)) as u64,
            _ => self.choose(j as usize + 1) as u64,
        };
        if x > 0 {
            self.stat("fault_delayed");
        }
        l + x
    }
    pub fn server_send(&mut self, c: usize, bytes: Vec<u8>) {
        if bytes.is_empty() {
            return;
        }
        self.conns[c].tx_total += bytes.len() as u64;
        let cuts = self.pieces(bytes.len());
        let mut prev = 0;
        for cut in cuts.into_iter().chain(Some(bytes.len())) {
            let t = (self.now + self.delay()).max(self.conns[c].s2c_last);
            self.conns[c].s2c_last = t;
            self.at(t, Ev::S2c(c, bytes[prev..cut].to_vec()));
            prev = cut;
        }
    }
    pub fn server_close(&mut self, c: usize, rst: bool) {
        if !self.conns[c].srv_alive {
            return;
        }
        self.conns[c].srv_alive = false;
        self.conns[c].s.exec = None;
        let t = (self.now + self.delay()).max(self.conns[c].s2c_last);
        self.conns[c].s2c_last = t;
        self.trace(21, || format!("server closes conn {c} rst={rst}"));
        self.stat(if rst { "fault_rst" } else { "fault_fin" });
        self.at(t, if rst { Ev::S2cRst(c) } else { Ev::S2cFin(c) });
    }
    fn client_send(&mut self, c: usize, bytes: Vec<u8>) {
        self.conns[c].inflight += bytes.len();
        let cuts = self.pieces(bytes.len());
        let mut prev = 0;
        for cut in cuts.into_iter().chain(Some(bytes.len())) {
            let t = (self.now + self.delay()).max(self.conns[c].c2s_last);
            self.conns[c].c2s_last = t;
            self.at(t, Ev::C2s(c, bytes[prev..cut].to_vec()));
            prev = cut;
        }
    }
    fn client_close(&mut self, c: usize) {
        if self.conns[c].cli == Cli::Closed {
            return;
        }
        let was = self.conns[c].cli;
        self.conns[c].cli = Cli::Closed;
        self.conns[c].closed_at = Some(self.now);
        self.open_now -= 1;
        let unread = !self.conns[c].rx.is_empty();
        self.conns[c].rx.clear();
        self.trace(22, || format!("client closes conn {c} (was {was:?})"));
        if was == Cli::Open {
            if self.plan.cfg.net.lossy_close && self.conns[c].inflight > 0 && (unread || self.conns[c].err.is_some())
            {
                if self.choose(2) == 1 {
                    self.conns[c].c2s_lost = true;
                    self.stat("fault_lossy_close");
                }
            }
        }
        let t = (self.now + self.plan.cfg.net.latency).max(self.conns[c].c2s_last);
        self.conns[c].c2s_last = t;
        self.at(t, Ev::C2sFin(c));
    }

    /// Processes one event; returns wakers to wake.
    fn event(&mut self, ev: Ev) -> Vec<Waker> {
        let mut wake = vec![];
        // a partitioned server neither receives nor sends; a dead one does nothing at all
        let inbound = matches!(ev, Ev::Syn(_) | Ev::C2s(..) | Ev::C2sFin(_));
        if let Some(c) = ev.conn() {
            let s = self.conns[c].server;
            match self.srv[s].down {
                Some(Down::Partition) => {
                    self.srv[s].held.push(ev);
                    return wake;
                }
                Some(Down::Dead) => {
                    if inbound {
                        match ev {
                            Ev::Syn(_) => self.srv[s].held.push(ev),
                            Ev::C2s(c, _) => self.conns[c].owed = true,
                            _ => {}
                        }
                        return wake;
                    }
                }
                _ => {}
            }
        }
        match ev {
            Ev::Syn(c) => {
                let s = self.conns[c].server;
                if matches!(self.srv[s].down, Some(Down::Crash) | Some(Down::Refuse)) {
                    let t = self.now + self.plan.cfg.net.latency;
                    self.trace(1, || format!("connect {c} refused by server {s}"));
                    self.stat("fault_connect_refused");
                    self.at(t, Ev::Refused(c));
                } else {
                    let d = self.delay();
                    let t = self.now + d;
                    self.conns[c].srv_alive = true;
                    self.conns[c].accepted = true;
                    self.conns[c].s2c_last = t;
                    self.trace(2, || format!("server {s} accepts conn {c}"));
                    self.at(t, Ev::SynAck(c));
                }
            }
            Ev::SynAck(c) => {
                let k = &mut self.conns[c];
                if k.cli == Cli::Connecting {
                    k.cli = Cli::Open;
                    wake.extend(k.connect_waker.take());
                    self.trace(3, || format!("conn {c} established"));
                }
            }
            Ev::Refused(c) => {
                let k = &mut self.conns[c];
                if k.cli == Cli::Connecting {
                    k.connect_result = Some(io::ErrorKind::ConnectionRefused);
                    wake.extend(k.connect_waker.take());
                }
            }
            Ev::C2s(c, b) => {
                let k = &mut self.conns[c];
                k.inflight -= b.len();
                if k.c2s_lost {
                    return wake;
                }
                if !k.srv_alive {
                    // nobody there: the kernel answers with a reset
                    if k.cli != Cli::Closed && k.err.is_none() {
                        let t = self.now + self.plan.cfg.net.latency;
                        self.at(t, Ev::S2cRst(c));
                    }
                    return wake;
                }
                wake.extend(k.write_waker.take());
                k.s.inbuf.extend_from_slice(&b);
                let n = b.len();
                self.trace(4, || format!("server gets {n} bytes on conn {c}"));
                self.server_input(c);
            }
            Ev::C2sFin(c) => {
                if self.conns[c].srv_alive {
                    self.trace(5, || format!("server sees end of conn {c}"));
                    self.conns[c].srv_alive = false;
                    self.conns[c].s.exec = None;
                }
            }
            Ev::S2c(c, b) => {
                let k = &mut self.conns[c];
                if k.cli != Cli::Open || k.err.is_some() {
                    return wake;
                }
                k.rx_total += b.len() as u64;
                k.rx_log.push((self.now, k.rx_total));
                k.rx.extend(b.iter());
                wake.extend(k.read_waker.take());
                let n = b.len();
                self.trace(6, || format!("client gets {n} bytes on conn {c}"));
            }
            Ev::S2cFin(c) => {
                let k = &mut self.conns[c];
                k.fin_at = Some(self.now);
                if k.cli == Cli::Open {
                    k.rx_fin = true;
                    wake.extend(k.read_waker.take());
                    self.trace(7, || format!("client gets FIN on conn {c}"));
                } else if k.cli == Cli::Connecting {
                    k.rx_fin = true;
                }
            }
            Ev::S2cRst(c) => {
                let drop_rx = self.choose(2) == 1;
                let k = &mut self.conns[c];
                if k.cli != Cli::Closed && k.err.is_none() {
                    k.err = Some(io::ErrorKind::ConnectionReset);
                    if drop_rx {
                        k.rx.clear();
                    }
                    wake.extend(k.read_waker.take());
                    wake.extend(k.write_waker.take());
                    wake.extend(k.connect_waker.take());
                    self.trace(8, || format!("client gets RST on conn {c} (unread data dropped: {drop_rx})"));
                }
            }
            Ev::Step(c, gen) => self.server_step(c, gen),
            Ev::Reply(c, bytes, after) => self.server_reply(c, bytes, after),
            Ev::Fault(i) => {
                let f = self.plan.faults[i].1;
                self.trace(9, || format!("fault {f:?}"));
                self.apply_fault(f);
                // a server that works again has read what had filled its buffers
                for k in self.conns.iter_mut() {
                    wake.extend(k.write_waker.take());
                }
            }
            Ev::Unpark(_) | Ev::Start(_) => unreachable!(),
        }
        wake
    }

    fn apply_fault(&mut self, f: Fault) {
        match f {
            Fault::Down(s, d) => {
                self.srv[s].down = Some(d);
                self.stat(match d {
                    Down::Crash => "fault_server_crash",
                    Down::Dead => "fault_machine_dead",
                    Down::Partition => "fault_partition",
                    Down::Hang => "fault_server_hang",
                    Down::Refuse => "fault_refuse",
                    Down::Deaf => "fault_no_pong",
                });
                let cs: Vec<usize> =
                    (0..self.conns.len()).filter(|c| self.conns[*c].server == s && self.conns[*c].srv_alive).collect();
                match d {
                    Down::Crash => {
                        for c in cs {
                            let rst = self.choose(2) == 0;
                            self.server_close(c, rst);
                            self.conns[c].s.inbuf.clear();
                        }
                    }
                    Down::Dead => {
                        for c in cs {
                            self.conns[c].srv_alive = false;
                            self.conns[c].s.exec = None;
                            self.conns[c].owed |= self.conns[c].s.st != crate::server::St::Idle;
                        }
                    }
                    _ => {}
                }
            }
            Fault::Up(s) => {
                self.srv[s].down = None;
                self.stat("fault_healed");
                // a retransmission or a keep-alive probe makes the restarted machine reset a
                // connection that the client waits for
                for c in 0..self.conns.len() {
                    let k = &mut self.conns[c];
                    if k.server == s && k.owed && k.cli == Cli::Open && !k.srv_alive {
                        k.owed = false;
                        let t = self.now + self.plan.cfg.net.latency;
                        self.at(t, Ev::S2cRst(c));
                    }
                }
                // retransmissions arrive some time after the heal, nothing overtakes them
                let t = self.now + self.plan.cfg.net.latency;
                let mut held = std::mem::take(&mut self.srv[s].held);
                if !held.is_empty() {
                    let (mut late, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut self.heap)
                        .into_iter()
                        .partition(|Reverse(i)| i.ms <= t && i.ev.conn().map_or(false, |c| self.conns[c].server == s));
                    self.heap = rest.into_iter().collect();
                    late.sort_by_key(|Reverse(i)| (i.ms, i.seq));
                    held.extend(late.into_iter().map(|Reverse(i)| i.ev));
                    for ev in held {
                        if let Some(c) = ev.conn() {
                            let k = &mut self.conns[c];
                            k.c2s_last = k.c2s_last.max(t);
                            k.s2c_last = k.s2c_last.max(t);
                        }
                        self.at(t, ev);
                    }
                }
                let cs: Vec<usize> =
                    (0..self.conns.len()).filter(|c| self.conns[*c].server == s && self.conns[*c].srv_alive).collect();
                for c in cs {
                    self.server_input(c);
                    if self.conns[c].s.exec.is_some() {
                        let g = self.conns[c].s.gen;
                        self.at(self.now, Ev::Step(c, g));
                    }
                }
            }
            Fault::CloseAll(s) | Fault::ResetAll(s) | Fault::Farewell(s) => {
                let rst = matches!(f, Fault::ResetAll(_));
                let cs: Vec<usize> =
                    (0..self.conns.len()).filter(|c| self.conns[*c].server == s && self.conns[*c].srv_alive).collect();
                for c in cs {
                    if matches!(f, Fault::Farewell(_)) && self.conns[c].s.st == crate::server::St::Idle {
                        let e = Exc { code: 236, name: "DB::Exception".into(), message: "Server is shutting down".into(), stack: "".into() };
                        self.stat("fault_farewell");
                        self.server_send(c, crate::server::exception_packet(&e));
                    }
                    self.server_close(c, rst);
                }
            }
        }
    }

    fn new_conn(&mut self, server: usize) -> usize {
        let c = self.conns.len();
        self.conns.push(Conn {
            server,
            cli: Cli::Connecting,
            connect_result: None,
            connect_waker: None,
            rx: VecDeque::new(),
            rx_total: 0,
            rx_log: vec![],
            tx_total: 0,
            marks: vec![],
            fin_at: None,
            rx_fin: false,
            err: None,
            read_waker: None,
            write_waker: None,
            inflight: 0,
            c2s_last: 0,
            s2c_last: 0,
            c2s_lost: false,
            owed: false,
            srv_alive: false,
            srv_fin_sent: false,
            opened: self.now,
            accepted: false,
            closed_at: None,
            nodelay: None,
            task: cur_task(),
            s: Default::default(),
        });
        self.open_now += 1;
        self.open_max = self.open_max.max(self.open_now);
        self.attempts.push((self.now, server, c));
        let task = cur_task();
        self.trace(20, || format!("task {task:?} opens conn {c} to server {server}"));
        if self.plan.cfg.pooled && self.open_now > self.plan.cfg.max && self.plan.cfg.hosts.iter().all(|h| h.addrs.len() == 1)
        {
            let (n, m) = (self.open_now, self.plan.cfg.max);
            self.violate("pool_max", format!("{n} connections are open or opening, pool_max is {m}"));
        }
        let d = self.delay();
        let t = self.now + d;
        self.conns[c].c2s_last = t;
        self.at(t, Ev::Syn(c));
        c
    }
}

// ---- hooks for the code under test ----

pub struct SimHooks;
pub static HOOKS: SimHooks = SimHooks;

struct ConnFut {
    addr: SocketAddr,
    conn: Option<usize>,
    done: bool,
}

impl Future for ConnFut {
    type Output = io::Result<Box<dyn clickhouse_rs::sim::Socket>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if teardown() {
            return Poll::Ready(Err(io::ErrorKind::ConnectionAborted.into()));
        }
        let addr = self.addr;
        let conn = self.conn;
        if conn.is_none() {
            sched_point("connect");
        }
        let r = with(|w| {
            let c = match conn {
                Some(c) => c,
                None => match w.server_of(addr) {
                    Some(s) => w.new_conn(s),
                    _ => {
                        w.violate("config", format!("a connection to {addr} is asked for, which is no configured address"));
                        return Err(io::ErrorKind::AddrNotAvailable);
                    }
                },
            };
            let k = &mut w.conns[c];
            if let Some(e) = k.connect_result {
                return Err(e);
            }
            if k.cli == Cli::Open {
                return Ok((c, true));
            }
            k.connect_waker = Some(cx.waker().clone());
            Ok((c, false))
        });
        match r {
            Err(e) => {
                self.done = false;
                Poll::Ready(Err(e.into()))
            }
            Ok((c, true)) => {
                self.done = true;
                Poll::Ready(Ok(Box::new(Sock { c })))
            }
            Ok((c, false)) => {
                self.conn = Some(c);
                Poll::Pending
            }
        }
    }
}
impl Drop for ConnFut {
    fn drop(&mut self) {
        if let (Some(c), false) = (self.conn, self.done) {
            sched_point("close");
            try_with(|w| w.client_close(c));
        }
    }
}

struct Sock {
    c: usize,
}
impl Drop for Sock {
    fn drop(&mut self) {
        sched_point("close");
        try_with(|w| w.client_close(self.c));
    }
}

impl clickhouse_rs::sim::Socket for Sock {
    fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if teardown() {
            return Poll::Ready(Err(io::ErrorKind::ConnectionAborted.into()));
        }
        with(|w| {
            let avail = w.conns[self.c].rx.len();
            if avail > 0 {
                let mut n = avail.min(buf.len());
                if w.plan.cfg.net.short_reads && n > 1 {
                    n = match w.choose(4) {
                        0 | 1 => n,
                        2 => 1,
                        _ => 1 + w.choose(n),
                    };
                }
                let k = &mut w.conns[self.c];
                for b in buf[..n].iter_mut() {
                    *b = k.rx.pop_front().unwrap();
                }
                return Poll::Ready(Ok(n));
            }
            let k = &mut w.conns[self.c];
            if let Some(e) = k.err {
                return Poll::Ready(Err(e.into()));
            }
            if k.rx_fin {
                return Poll::Ready(Ok(0));
            }
            k.read_waker = Some(cx.waker().clone());
            Poll::Pending
        })
    }
    fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if teardown() {
            return Poll::Ready(Err(io::ErrorKind::ConnectionAborted.into()));
        }
        with(|w| {
            let window = w.plan.cfg.net.window;
            let k = &mut w.conns[self.c];
            if k.err.is_some() {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            // a server that works reads what arrives; one that hangs lets its buffer fill up
            let hung = w.srv[k.server].down.is_some();
            let used = k.inflight + if k.srv_alive && hung { k.s.inbuf.len() } else { 0 };
            if used >= window {
                k.write_waker = Some(cx.waker().clone());
                w.stat("write_blocked");
                return Poll::Pending;
            }
            let room = window.saturating_sub(used).max(1);
            let mut n = buf.len().min(room);
            if n < buf.len() {
                w.stat("fault_partial_write");
            }
            if w.plan.cfg.net.window < 1 << 20 && n > 1 && w.choose(3) == 1 {
                n = 1 + w.choose(n);
                w.stat("fault_partial_write");
            }
            let c = self.c;
            w.trace(23, || format!("client writes {n} bytes on conn {c}"));
            w.client_send(c, buf[..n].to_vec());
            Poll::Ready(Ok(n))
        })
    }
    fn shutdown(&self) -> io::Result<()> {
        Ok(())
    }
    fn set_nodelay(&self, nodelay: bool) -> io::Result<()> {
        try_with(|w| w.conns[self.c].nodelay = Some(nodelay));
        Ok(())
    }
}

impl clickhouse_rs::sim::Hooks for SimHooks {
    fn connect(&self, addr: SocketAddr) -> clickhouse_rs::sim::ConnectFuture {
        Box::pin(ConnFut { addr, conn: None, done: false })
    }
    fn sched_point(&self, what: &'static str) {
        sched_point(what)
    }
    fn chunk_size(&self, default: usize) -> usize {
        try_with(|w| w.plan.cfg.chunk).unwrap_or(default)
    }
}

// ---- scheduler ----

#[derive(Clone, Copy, PartialEq)]
enum In {
    Poll,
    Abort,
}
enum Out {
    /// inside a poll, at a shared-memory operation
    Point(Option<u64>),
    Pending,
}

pub fn sched_point(what: &'static str) {
    let Some(t) = cur_task() else { return };
    if ABORT.with(|a| a.get()) && !std::thread::panicking() {
        std::panic::resume_unwind(Box::new("simulation aborted"));
    }
    if teardown() || std::thread::panicking() {
        return;
    }
    let park = with(|w| {
        w.steps += 1;
        if w.plan.cfg.workers <= 1 {
            return None;
        }
        w.stat("sched_points");
        let p = w.plan.cfg.preempt;
        if !w.chance(p) {
            return None;
        }
        w.stat("preemptions");
        let (pp, pm) = (w.plan.cfg.park, w.plan.cfg.park_ms);
        let park = if !w.calm && w.chance(pp) {
            w.stat("fault_thread_stalled");
            Some(1 + w.choose(pm as usize) as u64)
        } else {
            None
        };
        w.sched_hash = mix(w.sched_hash ^ mix((t as u64) << 8 ^ what.len() as u64 ^ 0x77));
        w.trace(30 + t as u64, || format!("task {t} preempted before {what} (stalled for {park:?} ms)"));
        Some(park)
    });
    if let Some(park) = park {
        let y = YIELDER.with(|y| y.get());
        CUR.with(|c| c.set(None));
        // SAFETY: we are on the coroutine whose yielder was stored before it was resumed
        let _ = unsafe { (*y).suspend(Out::Point(park)) };
        CUR.with(|c| c.set(Some(t)));
        if ABORT.with(|a| a.get()) {
            std::panic::resume_unwind(Box::new("simulation aborted"));
        }
    }
}

struct TaskWaker(usize);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        Self::wake_by_ref(&self)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        sched_point("wake");
        make_ready(self.0);
    }
}
fn make_ready(t: usize) {
    let d = READY.with(|r| {
        let mut r = r.borrow_mut();
        if t < r.queued.len() && !r.queued[t] {
            r.queued[t] = true;
            r.queue.push_back(t);
        }
        r.driver.clone()
    });
    if let Some(d) = d {
        d.wake();
    }
}

type Co = Coroutine<In, Out, Result<(), ()>, DefaultStack>;
static STACKS: Mutex<Vec<DefaultStack>> = Mutex::new(Vec::new());

struct TaskState {
    co: Option<Co>,
    mid: bool,
    parked: bool,
    started: bool,
    done: bool,
    yielder: *const Yielder<In, Out>,
}

pub struct RunEnd {
    pub world: World,
    pub hang: bool,
    pub livelock: bool,
    pub stuck_tasks: Vec<usize>,
    pub tasks_panicked: Vec<usize>,
}

fn spawn_task(t: usize, fut: Pin<Box<dyn Future<Output = ()>>>) -> TaskState {
    let stack = STACKS.lock().unwrap().pop().unwrap_or_else(|| DefaultStack::new(256 * 1024).unwrap());
    let co = Coroutine::with_stack(stack, move |y: &Yielder<In, Out>, mut input: In| {
        YIELDER.with(|c| c.set(y as *const _));
        let mut fut = Some(fut);
        let waker = Waker::from(Arc::new(TaskWaker(t)));
        loop {
            if input == In::Abort {
                CUR.with(|c| c.set(Some(t)));
                let f = fut.take();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
                CUR.with(|c| c.set(None));
                return r.map_err(|_| ());
            }
            CUR.with(|c| c.set(Some(t)));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut cx = Context::from_waker(&waker);
                fut.as_mut().unwrap().as_mut().poll(&mut cx)
            }));
            match r {
                Ok(Poll::Pending) => {
                    CUR.with(|c| c.set(None));
                    input = y.suspend(Out::Pending);
                }
                Ok(Poll::Ready(())) => {
                    let f = fut.take();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
                    CUR.with(|c| c.set(None));
                    return r.map_err(|_| ());
                }
                Err(_) => {
                    // the future may only be dropped now
                    let f = fut.take();
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
                    CUR.with(|c| c.set(None));
                    return Err(());
                }
            }
        }
    });
    TaskState { co: Some(co), mid: false, parked: false, started: false, done: false, yielder: std::ptr::null() }
}

struct Driver {
    tasks: Vec<TaskState>,
    last: usize,
    start: tokio::time::Instant,
    sleep: Pin<Box<tokio::time::Sleep>>,
    hang: bool,
    livelock: bool,
    /// when the clock was last seen to advance, and the steps until then
    tick: (u64, u64),
    panicked: Vec<usize>,
}

impl Driver {
    fn resume(&mut self, t: usize, input: In) {
        let st = &mut self.tasks[t];
        YIELDER.with(|y| y.set(st.yielder));
        let co = st.co.as_mut().unwrap();
        let r = co.resume(input);
        st.yielder = YIELDER.with(|y| y.get());
        match r {
            CoroutineResult::Yield(Out::Pending) => st.mid = false,
            CoroutineResult::Yield(Out::Point(park)) => {
                st.mid = true;
                if let Some(ms) = park {
                    st.parked = true;
                    with(|w| {
                        let t0 = w.now + ms;
                        w.at(t0, Ev::Unpark(t))
                    });
                }
            }
            CoroutineResult::Return(r) => {
                st.done = true;
                st.mid = false;
                let co = st.co.take().unwrap();
                STACKS.lock().unwrap().push(co.into_stack());
                if r.is_err() {
                    self.panicked.push(t);
                    let p = PANIC.with(|p| p.borrow_mut().take());
                    let (msg, loc) = p.unwrap_or(("?".into(), "?".into()));
                    if !ABORT.with(|a| a.get()) {
                        if loc.starts_with("src/") {
                            eprintln!("HARNESS PANIC at {loc}: {msg}");
                            std::process::exit(3);
                        }
                        with(|w| w.violate("panic", format!("task {t} panicked at {loc}: {msg}")));
                    }
                }
                let all = (0..self.tasks.len()).all(|i| {
                    self.tasks[i].done || with(|w| w.plan.tasks[i].start == Start::After)
                });
                if all {
                    for i in 0..self.tasks.len() {
                        let after = with(|w| w.plan.tasks[i].start == Start::After);
                        if after && !self.tasks[i].started {
                            self.tasks[i].started = true;
                            make_ready(i);
                        }
                    }
                }
            }
        }
    }

    fn drive(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        READY.with(|r| r.borrow_mut().driver = Some(cx.waker().clone()));
        loop {
            let ms = self.start.elapsed().as_millis() as u64;
            with(|w| w.now = ms);
            if self.tasks.iter().all(|t| t.done) {
                return Poll::Ready(());
            }
            let (horizon, steps, workers, spurious) = with(|w| {
                (w.plan.horizon, w.steps, w.plan.cfg.workers, w.plan.cfg.spurious)
            });
            if ms > horizon {
                self.hang = true;
                return Poll::Ready(());
            }
            if ms != self.tick.0 {
                self.tick = (ms, steps);
            }
            if steps > self.tick.1 + 1_000_000 || steps > 20_000_000 {
                self.livelock = true;
                return Poll::Ready(());
            }
            let due = with(|w| w.next_ms().map_or(false, |m| m <= ms));
            // candidates: threads inside a poll, then tasks that may start a poll
            let mut cand: Vec<usize> = vec![];
            let mut busy = 0;
            let n = self.tasks.len();
            for k in 0..n {
                let i = (self.last + k) % n;
                if self.tasks[i].mid {
                    busy += 1;
                    if !self.tasks[i].parked {
                        cand.push(i);
                    }
                }
            }
            if busy < workers {
                READY.with(|r| {
                    for t in r.borrow().queue.iter() {
                        if !self.tasks[*t].mid && !self.tasks[*t].done {
                            cand.push(*t);
                        }
                    }
                });
            }
            if cand.is_empty() && !due {
                break;
            }
            let total = cand.len() + due as usize;
            let pick = with(|w| {
                w.steps += 1;
                w.choose(total)
            });
            if pick < cand.len() {
                let t = cand[pick];
                if !self.tasks[t].mid {
                    READY.with(|r| {
                        let mut r = r.borrow_mut();
                        r.queued[t] = false;
                        r.queue.retain(|x| *x != t);
                    });
                }
                if cand.len() > 1 {
                    with(|w| w.sched_hash = mix(w.sched_hash ^ mix(t as u64)));
                }
                with(|w| w.trace(100 + t as u64, || format!("run task {t}")));
                self.last = t;
                self.resume(t, In::Poll);
            } else {
                let ev = with(|w| w.heap.pop().map(|Reverse(i)| i.ev)).unwrap();
                match ev {
                    Ev::Unpark(t) => self.tasks[t].parked = false,
                    Ev::Start(t) => {
                        self.tasks[t].started = true;
                        make_ready(t);
                    }
                    ev => {
                        let wk = with(|w| w.event(ev));
                        for k in wk {
                            k.wake();
                        }
                    }
                }
                if spurious > 0 && with(|w| w.chance(spurious)) {
                    let k = with(|w| {
                        w.stat("fault_spurious_wake");
                        w.choose(n)
                    });
                    if self.tasks[k].started && !self.tasks[k].done {
                        make_ready(k);
                    }
                }
            }
        }
        // nothing to do at this instant
        let next = with(|w| w.next_ms().unwrap_or(u64::MAX).min(w.plan.horizon + 1));
        let deadline = self.start + Duration::from_millis(next);
        self.sleep.as_mut().reset(deadline);
        match self.sleep.as_mut().poll(cx) {
            Poll::Ready(()) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

/// Runs the world of `plan` to its end on this (fresh) thread.
pub fn run(
    world: World,
    make: impl FnOnce() -> (Vec<Pin<Box<dyn Future<Output = ()>>>>, Box<dyn FnOnce()>),
) -> RunEnd {
    WORLD.with(|w| *w.borrow_mut() = Some(world));
    TEARDOWN.with(|t| t.set(false));
    ABORT.with(|t| t.set(false));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let (hang, livelock, panicked, stuck) = rt.block_on(tokio::task::unconstrained(async move {
        let (futs, finish) = make();
        let n = futs.len();
        READY.with(|r| {
            let mut r = r.borrow_mut();
            r.queue.clear();
            r.queued = vec![false; n];
        });
        let start = tokio::time::Instant::now();
        let mut d = Driver {
            tasks: futs.into_iter().enumerate().map(|(t, f)| spawn_task(t, f)).collect(),
            last: 0,
            start,
            sleep: Box::pin(tokio::time::sleep(Duration::from_secs(1))),
            hang: false,
            livelock: false,
            tick: (0, 0),
            panicked: vec![],
        };
        with(|w| {
            let plan = w.plan.clone();
            let any = plan.tasks.iter().any(|t| t.start != Start::After);
            for (i, t) in plan.tasks.iter().enumerate() {
                match t.start {
                    Start::At(ms) => w.at(ms, Ev::Start(i)),
                    Start::After if !any => w.at(0, Ev::Start(i)),
                    _ => {}
                }
            }
            for (i, (ms, _)) in plan.faults.iter().enumerate() {
                w.at(*ms, Ev::Fault(i));
            }
        });
        std::future::poll_fn(|cx| d.drive(cx)).await;
        // tear down what is left
        let stuck: Vec<usize> = (0..n).filter(|t| !d.tasks[*t].done && d.tasks[*t].started).collect();
        let mut finish = Some(finish);
        if d.tasks.iter().all(|t| t.done) && d.panicked.is_empty() {
            // the program ends in good order: pool and handles are gone, so are the sockets
            finish.take().unwrap()();
            with(|w| {
                w.stat("pool_dropped");
                if w.open_now != 0 {
                    let n = w.open_now;
                    w.violate("leak", format!("{n} sockets stay open after the pool and all handles were dropped"));
                }
            });
        }
        TEARDOWN.with(|t| t.set(true));
        if d.livelock {
            ABORT.with(|a| a.set(true));
        }
        for t in 0..n {
            let mut guard = 0;
            while d.tasks[t].mid && !d.tasks[t].done && guard < 1000 {
                d.resume(t, In::Poll);
                guard += 1;
            }
        }
        ABORT.with(|a| a.set(false));
        for t in 0..n {
            if !d.tasks[t].done {
                d.resume(t, In::Abort);
            }
        }
        if let Some(f) = finish {
            f();
        }
        (d.hang, d.livelock, d.panicked, stuck)
    }));
    drop(rt);
    let world = WORLD.with(|w| w.borrow_mut().take().unwrap());
    READY.with(|r| r.borrow_mut().driver = None);
    RunEnd { world, hang, livelock, stuck_tasks: stuck, tasks_panicked: panicked }
}
