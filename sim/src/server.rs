//! The model server: a strict implementation of the server side of the native protocol.
use crate::codec;
use crate::plan::*;
use crate::rng::mix;
use crate::ty::*;
use crate::world::*;

pub const CLIENT_REV: u64 = 54429;

#[derive(Default)]
pub struct SConn {
    pub inbuf: Vec<u8>,
    pub st: St,
    pub exec: Option<Exec>,
    pub gen: u64,
    pub closed_by_script: bool,
    pub queries: usize,
}

#[derive(Default, Clone, Debug, PartialEq)]
pub enum St {
    #[default]
    Hello,
    /// the answer to the handshake is under way
    Greeting,
    Idle,
    /// ping received, pong not sent yet
    Ponging,
    /// query received, external tables awaited
    External(What, bool),
    /// a statement is running
    Exec,
    /// waiting for the header of an insert to be sent
    InsertWait(usize, usize, bool),
    /// insert: data expected (insert, chunk, compression)
    Data(usize, usize, bool),
    /// insert failed: data is skipped until the empty block
    Skip(bool),
    /// insert finished, answer under way
    InsertEnd,
    /// nothing is answered any more
    Mute,
}

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Script(usize),
    Insert(usize),
}

pub struct Exec {
    pub script: usize,
    pub step: usize,
    pub row: usize,
    pub block: usize,
    pub sent: usize,
    pub compress: bool,
    pub cancelled: Option<usize>,
    pub stalled: bool,
}

/// A statement as received.
#[derive(Clone, Debug)]
pub struct Stmt {
    pub at: u64,
    pub conn: usize,
    pub server: usize,
    pub what: What,
    pub sql: String,
    /// bytes of the reply handed to the network / the reply was sent to its end
    pub complete: bool,
    pub exc_sent: bool,
    pub rows_sent: usize,
    pub cancelled: bool,
    pub seq: u64,
    /// (end of the packet in the byte stream, rows so far, what it was)
    pub marks: Vec<(u64, usize, Mark)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mark {
    Block,
    Exc,
    Eos,
}

/// Rows accepted by the server for an insert (one entry per chunk).
#[derive(Clone, Debug)]
pub struct Stored {
    pub insert: usize,
    pub chunk: usize,
    pub cols: Vec<Vec<Val>>,
    pub rows: usize,
    pub conn: usize,
}

pub fn insert_sql(ins: &Ins) -> String {
    let cols: Vec<String> = ins
        .cols
        .iter()
        .map(|c| {
            if c.src.name.chars().all(|ch| ch.is_ascii_digit()) {
                c.src.name.clone()
            } else {
                format!("`{}`", c.src.name)
            }
        })
        .collect();
    format!("INSERT INTO {} ({}) VALUES", ins.table, cols.join(", "))
}

pub fn exception_packet(e: &Exc) -> Vec<u8> {
    let mut p = vec![2];
    p.extend_from_slice(&e.code.to_le_bytes());
    put_str(&mut p, e.name.as_bytes());
    put_str(&mut p, e.message.as_bytes());
    put_str(&mut p, e.stack.as_bytes());
    // some come with nested exceptions
    if !e.stack.is_empty() {
        for k in 0..e.message.len() % 3 {
            p.push(1);
            p.extend_from_slice(&(100 + k as u32).to_le_bytes());
            put_str(&mut p, b"DB::Nested");
            put_str(&mut p, e.message.as_bytes());
            let deep = if e.stack.len() > 100 { 1020 + (e.message.len() + k) % 10 } else { 0 };
            put_str(&mut p, &vec![b'.'; deep]);
        }
    }
    p.push(0);
    p
}

/// The columns the server announces for an insert.
pub fn announced(ins: &Ins) -> Vec<Col> {
    let mut v: Vec<Col> =
        ins.cols.iter().map(|k| Col { name: k.src.name.clone(), ty: k.dst.clone(), seed: 0 }).collect();
    match ins.misfit {
        Some(Misfit::MoreColumns) => v.push(Col { name: "extra".into(), ty: Ty::U8, seed: 0 }),
        Some(Misfit::FewerColumns) => {
            v.pop();
        }
        _ => {}
    }
    v
}

fn data_packet(cols: &[Col], first: usize, rows: usize, compress: bool, frame: usize) -> Vec<u8> {
    let mut p = vec![1];
    // a table name, empty as a rule
    let h = cols.first().map_or(0, |c| mix(c.seed ^ 99));
    let name = if h % 40 != 1 { 0 } else if h % 400 == 1 { 1020 + (h >> 20) as usize % 9 } else { (h >> 20) as usize % 9 };
    put_str(&mut p, &vec![b't'; name]);
    let b = encode_block(cols, first, rows);
    if compress {
        for part in b.chunks(frame.max(1)) {
            p.extend(codec::frame(part));
        }
    } else {
        p.extend(b);
    }
    p
}

fn step_bytes(s: &Script, step: &Step, row: usize, rev: u64, z: bool) -> Vec<u8> {
    match step {
        Step::Header => data_packet(&s.cols, 0, 0, z, s.frame),
        Step::Rows(n) => data_packet(&s.cols, row, *n, z, s.frame),
        Step::Empty => data_packet(&[], 0, 0, z, s.frame),
        Step::Progress => {
            let mut p = vec![3];
            put_uvarint(&mut p, 300);
            put_uvarint(&mut p, 1);
            put_uvarint(&mut p, 70000);
            if rev >= 54420 {
                put_uvarint(&mut p, 0);
                put_uvarint(&mut p, 129);
            }
            p
        }
        Step::Profile => vec![6, 3, 1, 200, 1, 1, 9, 1],
        Step::Exception(x) => exception_packet(x),
        Step::Raw(b) => b.clone(),
        Step::Eos => vec![5],
        Step::Delay(_) | Step::Stall | Step::Close => vec![],
    }
}

/// Length of the complete reply.
pub fn reply_len(s: &Script, revision: u64, z: bool) -> usize {
    let (mut n, mut row) = (0, 0);
    for step in &s.steps {
        n += step_bytes(s, step, row, revision.min(CLIENT_REV), z).len();
        if let Step::Rows(k) = step {
            row += k;
        }
    }
    n
}

enum Pkt {
    Hello { db: String, user: String, pass: String, rev: u64 },
    Ping,
    Cancel,
    Query(Box<Q>),
    Data { table: String, block: DBlock },
}
struct Q {
    query_id: String,
    initial_id: String,
    settings: Vec<(String, SetVal, Option<bool>)>,
    compress: u64,
    stage: u64,
    sql: String,
}

fn block_maybe_compressed(rd: &mut Rd, compress: bool) -> R<DBlock> {
    if !compress {
        return decode_block(rd);
    }
    let mut data = vec![];
    loop {
        let lo = rd.u64()?;
        let hi = rd.u64()?;
        let start = rd.pos;
        let m = rd.take(1)?[0];
        let c = u32::from_le_bytes(rd.arr()?) as usize;
        let u = u32::from_le_bytes(rd.arr()?) as usize;
        if m != 0x82 {
            return bad(format!("compression method {m:#x}"));
        }
        if c < 9 || c > 1 << 30 || u > 1 << 30 {
            return bad(format!("compressed sizes {c} and {u}"));
        }
        rd.take(c - 9)?;
        let body = &rd.b[start..start + c];
        if codec::city128(body) != (lo, hi) {
            return bad("wrong checksum of a compressed frame".into());
        }
        match codec::lz4_decompress(&body[9..], u) {
            Ok(d) => data.extend(d),
            Err(e) => return bad(e),
        }
        let mut inner = Rd::new(&data);
        match decode_block(&mut inner) {
            Ok(b) => {
                if inner.pos != data.len() {
                    return bad(format!("{} bytes left after a compressed block", data.len() - inner.pos));
                }
                return Ok(b);
            }
            Err(Stop::More) => continue,
            Err(e) => return Err(e),
        }
    }
}

impl World {
    fn parse(&self, c: usize, rd: &mut Rd) -> R<Pkt> {
        let server = self.conns[c].server;
        let rev = self.plan.servers[server].revision.min(CLIENT_REV);
        let compress = match self.conns[c].s.st {
            St::External(_, z) | St::Data(_, _, z) | St::Skip(z) | St::InsertWait(_, _, z) => z,
            _ => false,
        };
        Ok(match rd.uvarint()? {
            0 => {
                let _name = rd.string()?;
                rd.uvarint()?;
                rd.uvarint()?;
                let rev = rd.uvarint()?;
                Pkt::Hello { rev, db: rd.string()?, user: rd.string()?, pass: rd.string()? }
            }
            1 => {
                let query_id = rd.string()?;
                let kind = rd.take(1)?[0];
                if kind != 1 {
                    return bad(format!("query kind {kind}"));
                }
                let _initial_user = rd.string()?;
                let initial_id = rd.string()?;
                let _addr = rd.string()?;
                let iface = rd.take(1)?[0];
                if iface != 1 {
                    return bad(format!("interface {iface}"));
                }
                let _os_user = rd.string()?;
                let _host = rd.string()?;
                let _name = rd.string()?;
                rd.uvarint()?;
                rd.uvarint()?;
                rd.uvarint()?;
                if rev >= 54060 {
                    rd.string()?;
                }
                if rev >= 54401 {
                    rd.uvarint()?;
                }
                let mut settings = vec![];
                loop {
                    let name = rd.string()?;
                    if name.is_empty() {
                        break;
                    }
                    if rev >= 54429 {
                        let flags = rd.uvarint()?;
                        if flags > 1 {
                            return bad(format!("flags {flags} of setting {name:?}"));
                        }
                        settings.push((name, SetVal::S(rd.string()?), Some(flags == 1)));
                    } else {
                        // the server knows the types of its settings
                        let known = self.plan.cfg.settings.iter().find(|s| s.0 == name);
                        let v = match known {
                            None => return bad(format!("setting {name:?} that was never configured")),
                            Some(_) if self.plan.cfg.via_url => SetVal::S(rd.string()?),
                            Some((_, SetVal::S(_), _)) | Some((_, SetVal::F(_), _)) => SetVal::S(rd.string()?),
                            Some((_, SetVal::B(_), _)) => match rd.uvarint()? {
                                0 => SetVal::B(false),
                                1 => SetVal::B(true),
                                x => return bad(format!("boolean setting {name:?} is {x}")),
                            },
                            Some((_, SetVal::U(_), _)) => SetVal::U(rd.uvarint()?),
                        };
                        settings.push((name, v, None));
                    }
                }
                let stage = rd.uvarint()?;
                let compress = rd.uvarint()?;
                let sql = rd.string()?;
                Pkt::Query(Box::new(Q { query_id, initial_id, settings, compress, stage, sql }))
            }
            2 => {
                let table = rd.string()?;
                let block = block_maybe_compressed(rd, compress)?;
                Pkt::Data { table, block }
            }
            3 => Pkt::Cancel,
            4 => Pkt::Ping,
            p => return bad(format!("unknown packet type {p}")),
        })
    }

    pub fn server_input(&mut self, c: usize) {
        loop {
            if !self.conns[c].srv_alive || self.srv[self.conns[c].server].down == Some(Down::Hang) {
                return;
            }
            if self.conns[c].s.inbuf.is_empty() || self.conns[c].s.st == St::Mute {
                return;
            }
            // the server reads the next packet only when it is done with the last one, except
            // that it looks for a cancellation while it executes
            match self.conns[c].s.st {
                St::Greeting | St::Ponging | St::InsertWait(..) | St::InsertEnd => return,
                _ => {}
            }
            let buf = std::mem::take(&mut self.conns[c].s.inbuf);
            let mut rd = Rd::new(&buf);
            let r = self.parse(c, &mut rd);
            let pos = rd.pos;
            match r {
                Err(Stop::More) => {
                    // an insert may be broken in the middle of its data
                    if let St::Data(i, chunk, _) = self.conns[c].s.st {
                        if let Some((k, InsFail::CloseInData(n, how))) = self.plan.inserts[i].fail.clone() {
                            if k == chunk && self.plan.inserts[i].rows > 0 && buf.len() >= n {
                                self.server_break(c, how);
                                return;
                            }
                        }
                    }
                    self.conns[c].s.inbuf = buf;
                    return;
                }
                Err(Stop::Bad(e)) => {
                    let st = self.conns[c].s.st.clone();
                    self.violate("protocol", format!("conn {c}: the server in state {st:?} got bytes it cannot parse: {e}"));
                    self.conns[c].s.st = St::Mute;
                    self.server_close(c, false);
                    return;
                }
                Ok(p) => {
                    self.conns[c].s.inbuf = buf[pos..].to_vec();
                    self.packet(c, p);
                }
            }
        }
    }

    fn illegal(&mut self, c: usize, what: &str) {
        let st = self.conns[c].s.st.clone();
        self.violate("protocol", format!("conn {c}: {what} is not legal for the server in state {st:?}"));
        self.conns[c].s.st = St::Mute;
        self.server_close(c, false);
    }

    fn reply_after(&mut self, c: usize, delay: u64, bytes: Vec<u8>, after: After) {
        let t = self.now + delay;
        self.at(t, Ev::Reply(c, bytes, after));
    }

    pub fn server_reply(&mut self, c: usize, bytes: Vec<u8>, after: After) {
        if !self.conns[c].srv_alive {
            return;
        }
        if self.srv[self.conns[c].server].down == Some(Down::Hang) {
            let t = self.now + 50;
            self.at(t, Ev::Reply(c, bytes, after));
            return;
        }
        let n = bytes.len();
        self.trace(40, || format!("server answers {n} bytes on conn {c}"));
        self.server_send(c, bytes);
        let tx = self.conns[c].tx_total;
        match self.conns[c].s.st {
            St::Ponging if after == After::Nothing => self.conns[c].marks.push((tx, true)),
            St::InsertEnd => self.conns[c].marks.push((tx, false)),
            _ => {}
        }
        match after {
            After::Nothing => {
                match self.conns[c].s.st.clone() {
                    St::Greeting | St::Ponging => self.conns[c].s.st = St::Idle,
                    St::InsertWait(i, chunk, z) => self.conns[c].s.st = St::Data(i, chunk, z),
                    St::InsertEnd => self.conns[c].s.st = St::Idle,
                    _ => {}
                }
                self.server_input(c);
            }
            After::Fin => self.server_close(c, false),
            After::Rst => self.server_close(c, true),
        }
    }

    fn server_break(&mut self, c: usize, how: CutKind) {
        self.conns[c].s.closed_by_script = true;
        match how {
            CutKind::Fin => self.server_close(c, false),
            CutKind::Rst => self.server_close(c, true),
            CutKind::Silent => {
                self.stat("fault_silence");
                self.conns[c].s.st = St::Mute;
            }
        }
    }

    fn broken_reply(&mut self, c: usize, delay: u64, full: Vec<u8>, b: &Break) {
        match b {
            Break::Delay(d) => {
                self.stat("fault_slow_reply");
                self.reply_after(c, delay + d, full, After::Nothing)
            }
            Break::Silent => {
                self.stat("fault_silence");
                self.conns[c].s.st = St::Mute;
            }
            Break::CutFin(n) => {
                self.stat("fault_cut_reply");
                self.reply_after(c, delay, full[..(*n).min(full.len().saturating_sub(1))].to_vec(), After::Fin)
            }
            Break::CutRst(n) => {
                self.stat("fault_cut_reply");
                self.reply_after(c, delay, full[..(*n).min(full.len().saturating_sub(1))].to_vec(), After::Rst)
            }
            Break::Exception(e) => {
                self.stat("fault_exception");
                self.reply_after(c, delay, exception_packet(e), After::Fin)
            }
            Break::Raw(b) => {
                self.stat("fault_malformed");
                self.reply_after(c, delay, b.clone(), After::Fin)
            }
        }
    }

    fn packet(&mut self, c: usize, p: Pkt) {
        let server = self.conns[c].server;
        let plan = self.plan.clone();
        let cfg = &plan.cfg;
        let sp = &plan.servers[server];
        let st = self.conns[c].s.st.clone();
        match p {
            Pkt::Hello { db, user, pass, rev } => {
                if st != St::Hello {
                    return self.illegal(c, "Hello");
                }
                self.trace(41, || format!("server {server} gets hello on conn {c}"));
                if (&db, &user, &pass) != (&cfg.db, &cfg.user, &cfg.pass) {
                    self.violate(
                        "config",
                        format!(
                            "handshake carries database {db:?}, user {user:?}, password {pass:?}; configured are {:?}, {:?}, {:?}",
                            cfg.db, cfg.user, cfg.pass
                        ),
                    );
                }
                if rev != CLIENT_REV {
                    self.violate("protocol", format!("handshake announces client revision {rev}"));
                }
                if let Some(n) = self.conns[c].nodelay {
                    if n != cfg.nodelay {
                        self.violate("config", format!("TCP_NODELAY is {n}, configured is {}", cfg.nodelay));
                    }
                }
                let k = self.srv[server].hellos;
                self.srv[server].hellos += 1;
                let mut r = vec![0];
                put_str(&mut r, sp.name.as_bytes());
                put_uvarint(&mut r, 21);
                put_uvarint(&mut r, 8);
                put_uvarint(&mut r, sp.revision);
                if sp.revision >= 54058 {
                    put_str(&mut r, sp.tz.as_bytes());
                }
                if sp.revision >= 54372 {
                    put_str(&mut r, b"sim");
                }
                if sp.revision >= 54401 {
                    put_uvarint(&mut r, 3);
                }
                self.conns[c].s.st = St::Greeting;
                match sp.hello.iter().find(|(n, _)| *n == k && !self.calm) {
                    Some((_, b)) => self.broken_reply(c, sp.delay, r, b),
                    None => self.reply_after(c, sp.delay, r, After::Nothing),
                }
            }
            Pkt::Ping => {
                if st != St::Idle {
                    return self.illegal(c, "Ping");
                }
                let k = self.srv[server].pings;
                self.srv[server].pings += 1;
                self.trace(42, || format!("server {server} gets ping on conn {c}"));
                self.conns[c].s.st = St::Ponging;
                if self.srv[server].down == Some(Down::Deaf) {
                    let b = match self.choose(3) {
                        0 => Break::CutFin(0),
                        1 => Break::CutRst(0),
                        _ => Break::Silent,
                    };
                    return self.broken_reply(c, sp.delay, vec![4], &b);
                }
                match sp.pong.iter().find(|(n, _)| *n == k) {
                    Some((_, b)) => self.broken_reply(c, sp.delay, vec![4], b),
                    None => self.reply_after(c, sp.delay, vec![4], After::Nothing),
                }
            }
            Pkt::Cancel => match st {
                St::Exec => {
                    self.trace(43, || format!("server {server} gets cancel on conn {c}"));
                    let e = self.conns[c].s.exec.as_mut().unwrap();
                    if e.cancelled.is_none() {
                        let s = &plan.scripts[e.script];
                        e.cancelled = Some(s.after_cancel);
                        let was_stalled = e.stalled;
                        e.stalled = false;
                        let script = e.script;
                        let gen = self.conns[c].s.gen;
                        if let Some(st) =
                            self.stmts.iter_mut().rev().find(|s| s.conn == c && s.what == What::Script(script))
                        {
                            st.cancelled = true;
                        }
                        if was_stalled {
                            self.at(self.now, Ev::Step(c, gen));
                        }
                    }
                }
                St::Idle => {}
                St::Hello => self.illegal(c, "Cancel"),
                // an insert can be cancelled, too: the server then ends the statement
                St::Data(..) | St::Skip(..) => {
                    self.conns[c].s.st = St::InsertEnd;
                    self.reply_after(c, 0, vec![5], After::Nothing);
                }
                _ => self.illegal(c, "Cancel"),
            },
            Pkt::Query(q) => {
                if st != St::Idle {
                    return self.illegal(c, &format!("Query {:?}", q.sql));
                }
                self.conns[c].s.queries += 1;
                self.query(c, *q);
            }
            Pkt::Data { table, block } => match st {
                St::External(what, z) => {
                    if !table.is_empty() || block.rows != 0 || !block.cols.is_empty() {
                        return self.illegal(c, "a non-empty block instead of the end of the external tables");
                    }
                    self.execute(c, what, z);
                }
                St::Data(i, chunk, z) => self.insert_data(c, i, chunk, z, table, block),
                St::Skip(_) => {
                    if block.cols.is_empty() {
                        self.conns[c].s.st = St::Idle;
                    }
                }
                _ => self.illegal(c, "Data"),
            },
        }
    }

    fn query(&mut self, c: usize, q: Q) {
        let plan = self.plan.clone();
        let cfg = &plan.cfg;
        let server = self.conns[c].server;
        let sp = &plan.servers[server];
        self.trace(44, || format!("server {server} gets {:?} on conn {c}", q.sql));
        let z = q.compress == 1;
        if q.compress > 1 || z != cfg.compression {
            self.violate("config", format!("query announces compression {}, configured is {}", q.compress, cfg.compression));
        }
        if q.stage != 2 {
            self.violate("protocol", format!("query stage {}", q.stage));
        }
        // settings
        let strings = sp.revision >= 54429;
        let mut want: Vec<(String, SetVal, Option<bool>)> = cfg
            .settings
            .iter()
            .map(|(n, v, imp)| {
                let text = match v {
                    SetVal::S(s) => s.clone(),
                    SetVal::B(b) => b.to_string(),
                    SetVal::U(u) => u.to_string(),
                    SetVal::F(f) => f.to_string(),
                };
                if strings {
                    (n.clone(), SetVal::S(text), Some(if cfg.via_url { true } else { *imp }))
                } else if cfg.via_url {
                    (n.clone(), SetVal::S(text), None)
                } else {
                    match v {
                        SetVal::F(_) => (n.clone(), SetVal::S(text), None),
                        v => (n.clone(), v.clone(), None),
                    }
                }
            })
            .collect();
        let mut got = q.settings.clone();
        want.sort_by(|a, b| a.0.cmp(&b.0));
        got.sort_by(|a, b| a.0.cmp(&b.0));
        if want != got {
            self.violate("config", format!("statement arrives with settings {got:?}, configured are {want:?}"));
        }
        let what = if let Some(i) = plan.scripts.iter().position(|s| s.sql == q.sql) {
            What::Script(i)
        } else if let Some(i) = plan.inserts.iter().position(|i| insert_sql(i) == q.sql) {
            What::Insert(i)
        } else {
            self.violate("unknown_statement", format!("server {server} receives the statement {:?} which nobody issued", q.sql));
            self.conns[c].s.st = St::Mute;
            self.server_close(c, false);
            return;
        };
        let qid = match &what {
            What::Script(i) => plan.scripts[*i].qid.clone(),
            What::Insert(i) => plan.inserts[*i].qid.clone(),
        };
        let qid = qid.unwrap_or_default();
        if q.initial_id != qid && q.query_id != qid {
            self.violate("config", format!("statement {:?} arrives with query id {:?}/{:?}, given was {qid:?}", q.sql, q.query_id, q.initial_id));
        }
        self.conns[c].s.st = St::External(what, z);
    }

    fn execute(&mut self, c: usize, what: What, z: bool) {
        let plan = self.plan.clone();
        let server = self.conns[c].server;
        let sql = match &what {
            What::Script(i) => plan.scripts[*i].sql.clone(),
            What::Insert(i) => insert_sql(&plan.inserts[*i]),
        };
        self.trace(45, || format!("server {server} starts {sql:?} on conn {c}"));
        self.seq += 1;
        let stmt = Stmt {
            at: self.now,
            conn: c,
            server,
            what: what.clone(),
            sql,
            complete: false,
            exc_sent: false,
            rows_sent: 0,
            cancelled: false,
            seq: self.seq,
            marks: vec![],
        };
        let earlier = self.stmts.iter().filter(|s| s.what == what).count();
        self.stmts.push(stmt);
        match what {
            What::Script(i) => {
                self.conns[c].s.gen += 1;
                self.conns[c].s.exec = Some(Exec {
                    script: i,
                    step: 0,
                    row: 0,
                    block: 0,
                    sent: 0,
                    compress: z,
                    cancelled: None,
                    stalled: false,
                });
                self.conns[c].s.st = St::Exec;
                let g = self.conns[c].s.gen;
                self.at(self.now, Ev::Step(c, g));
            }
            What::Insert(i) => {
                let ins = &plan.inserts[i];
                let chunk = earlier;
                let cols = announced(ins);
                let rev = plan.servers[server].revision.min(CLIENT_REV);
                let mut r = vec![];
                if ins.table_columns && rev >= 54410 {
                    r.push(11);
                    put_str(&mut r, b"");
                    put_str(&mut r, b"columns format version: 1\n0 columns:\n");
                }
                r.extend(data_packet(&cols, 0, 0, z, 1 << 20));
                match ins.fail.clone() {
                    Some((k, InsFail::ExcAtQuery(e))) if k == chunk => {
                        self.stat("fault_exception");
                        self.stmts.last_mut().unwrap().exc_sent = true;
                        self.conns[c].s.st = St::Greeting; // back to idle after the answer
                        self.reply_after(c, ins.delay, exception_packet(&e), After::Nothing);
                    }
                    Some((k, InsFail::CloseAtQuery(how))) if k == chunk => self.server_break(c, how),
                    Some((k, InsFail::CutHeader(n, how))) if k == chunk => {
                        self.stat("fault_cut_reply");
                        let n = n.min(r.len() - 1);
                        r.truncate(n);
                        match how {
                            CutKind::Fin => self.reply_after(c, ins.delay, r, After::Fin),
                            CutKind::Rst => self.reply_after(c, ins.delay, r, After::Rst),
                            CutKind::Silent => {
                                self.conns[c].s.st = St::Mute;
                                self.reply_after(c, ins.delay, r, After::Nothing)
                            }
                        }
                    }
                    _ => {
                        self.conns[c].s.st = St::InsertWait(i, chunk, z);
                        self.reply_after(c, ins.delay, r, After::Nothing);
                    }
                }
            }
        }
    }

    fn insert_data(&mut self, c: usize, i: usize, chunk: usize, z: bool, table: String, block: DBlock) {
        let plan = self.plan.clone();
        let ins = &plan.inserts[i];
        if !table.is_empty() {
            return self.illegal(c, "Data for an external table");
        }
        if block.cols.is_empty() {
            if block.rows != 0 {
                return self.illegal(c, "Data with rows but without columns");
            }
            // end of the insert
            let pending: usize = self.stored.iter().filter(|s| s.insert == i && s.chunk == chunk && s.conn == c).count();
            let _ = pending;
            match ins.fail.clone() {
                Some((k, InsFail::ExcAtEnd(e))) if k == chunk => {
                    self.stat("fault_exception");
                    self.stored.retain(|s| !(s.insert == i && s.chunk == chunk));
                    if let Some(s) = self.stmts.iter_mut().rev().find(|s| s.what == What::Insert(i)) {
                        s.exc_sent = true;
                    }
                    self.conns[c].s.st = St::Greeting;
                    self.reply_after(c, ins.delay, exception_packet(&e), After::Nothing);
                }
                Some((k, InsFail::CloseAtEnd(how))) if k == chunk => self.server_break(c, how),
                _ => {
                    if let Some(s) = self.stmts.iter_mut().rev().find(|s| s.what == What::Insert(i) && s.conn == c) {
                        s.complete = true;
                    }
                    self.conns[c].s.st = St::InsertEnd;
                    self.reply_after(c, ins.delay, vec![5], After::Nothing);
                }
            }
            return;
        }
        // a data block
        if ins.misfit.is_some() {
            return self.illegal(c, "Data that does not fit the table");
        }
        let n = block.cols.len();
        if n != ins.cols.len() {
            return self.illegal(c, &format!("Data with {n} columns for {} announced", ins.cols.len()));
        }
        for (k, (name, ty, _)) in block.cols.iter().enumerate() {
            let want = &ins.cols[k];
            if *name != want.src.name {
                return self.illegal(c, &format!("Data column {name:?} in place of {:?}", want.src.name));
            }
            if ty.no_tz() != want.dst.no_tz() {
                return self.illegal(c, &format!("Data column {name:?} of type {} in place of {}", ty.name(), want.dst.name()));
            }
        }
        match ins.fail.clone() {
            Some((k, InsFail::ExcAtData(e))) if k == chunk => {
                self.stat("fault_exception");
                if let Some(s) = self.stmts.iter_mut().rev().find(|s| s.what == What::Insert(i)) {
                    s.exc_sent = true;
                }
                self.conns[c].s.st = St::Skip(z);
                let t = self.now + ins.delay;
                self.at(t, Ev::Reply(c, exception_packet(&e), After::Nothing));
                return;
            }
            Some((k, InsFail::CloseInData(_, how))) if k == chunk => {
                self.server_break(c, how);
                return;
            }
            _ => {}
        }
        self.trace(46, || format!("server gets {} rows of insert {i} chunk {chunk}", block.rows));
        let rows = block.rows;
        self.stored.push(Stored {
            insert: i,
            chunk,
            cols: block.cols.into_iter().map(|(_, _, v)| v).collect(),
            rows,
            conn: c,
        });
    }

    /// Performs the next step of the running statement on connection `c`.
    pub fn server_step(&mut self, c: usize, gen: u64) {
        if !self.conns[c].srv_alive || self.conns[c].s.gen != gen {
            return;
        }
        let server = self.conns[c].server;
        if self.srv[server].down == Some(Down::Hang) {
            return; // resumed when the server is back
        }
        let plan = self.plan.clone();
        let Some(e) = self.conns[c].s.exec.as_mut() else { return };
        let s = &plan.scripts[e.script];
        let script = e.script;
        let mut step = s.steps.get(e.step).cloned().unwrap_or(Step::Stall);
        if let Some(left) = &mut e.cancelled {
            if *left == 0 || matches!(step, Step::Stall | Step::Delay(_)) {
                step = match step {
                    Step::Exception(_) => step,
                    _ => Step::Eos,
                };
            } else {
                *left -= 1;
            }
        }
        e.step += 1;
        let z = e.compress;
        let mut next = self.now;
        let mut ends = false;
        let rev = plan.servers[server].revision.min(CLIENT_REV);
        let mut bytes = step_bytes(s, &step, e.row, rev, z);
        match &step {
            Step::Rows(n) => e.row += n,
            Step::Delay(ms) => next += ms,
            Step::Exception(_) | Step::Eos => ends = true,
            Step::Stall => {
                e.stalled = true;
                self.stat("fault_stall");
                return;
            }
            Step::Close => {
                self.conns[c].s.closed_by_script = true;
                self.server_close(c, false);
                return;
            }
            _ => {}
        }
        // bit flips inside a compressed frame
        if matches!(step, Step::Header | Step::Rows(_) | Step::Empty) {
            if let Some((k, frac, bit)) = s.flip {
                if k == e.block && z {
                    // the packet's type and the table's name go before the frames
                    let skip = if bytes[1] < 128 { 2 + bytes[1] as usize } else { 3 + (bytes[1] as usize & 127) + ((bytes[2] as usize) << 7) };
                    let n = bytes.len() - skip;
                    let at = if frac >= 1_000_000 {
                        (frac - 1_000_000) as usize % n
                    } else {
                        (frac as usize * n / 1_000_000).min(n - 1)
                    };
                    // no absurd sizes: they only cost memory
                    let at = if matches!(at, 19 | 20 | 23 | 24) { at - 2 } else { at };
                    bytes[skip + at] ^= 1 << (bit & 7);
                    self.stat("fault_bit_flip");
                }
            }
            let e = self.conns[c].s.exec.as_mut().unwrap();
            e.block += 1;
        }
        let e = self.conns[c].s.exec.as_mut().unwrap();
        let sent = e.sent;
        e.sent += bytes.len();
        let row = e.row;
        self.trace(47, || format!("server {server} conn {c}: {step:?} ({} bytes)", bytes.len()));
        if let Some((at, how)) = &s.cut {
            if sent + bytes.len() > *at {
                let keep = at.saturating_sub(sent);
                bytes.truncate(keep);
                self.stat("fault_cut_reply");
                self.server_send(c, bytes);
                let how = how.clone();
                self.conns[c].s.exec = None;
                self.conns[c].s.gen += 1;
                self.server_break(c, how);
                return;
            }
        }
        self.server_send(c, bytes);
        if let Some(st) = self.stmts.iter_mut().rev().find(|s| s.conn == c && s.what == What::Script(script)) {
            st.rows_sent = row;
            let tx = self.conns[c].tx_total;
            match step {
                Step::Rows(_) => st.marks.push((tx, row, Mark::Block)),
                Step::Exception(_) => st.marks.push((tx, row, Mark::Exc)),
                Step::Eos => st.marks.push((tx, row, Mark::Eos)),
                _ => {}
            }
            if matches!(step, Step::Eos) {
                st.complete = true;
            }
            if matches!(step, Step::Exception(_)) {
                st.exc_sent = true;
            }
        }
        if matches!(step, Step::Exception(_)) {
            self.stat("fault_exception");
        }
        if matches!(step, Step::Raw(_)) {
            self.stat("fault_malformed");
        }
        if ends {
            self.conns[c].s.exec = None;
            self.conns[c].s.gen += 1;
            self.conns[c].s.st = St::Idle;
            // a server may close right after the end of the reply
            let pos = s.steps.iter().position(|x| *x == step);
            if pos.map_or(false, |p| s.steps.get(p + 1) == Some(&Step::Close)) {
                self.server_close(c, false);
                return;
            }
            self.server_input(c);
            return;
        }
        self.at(next, Ev::Step(c, gen));
        if !matches!(self.conns[c].s.st, St::Exec) {
            return;
        }
        self.server_input(c);
    }
}
