//! Decides, from the recorded history, whether the run was as it should be.
use crate::client::{convert, Er, Outcome, Rec};
use crate::plan::*;
use crate::server::{Mark, Stmt, What};
use crate::world::{RunEnd, Violation, World};

/// Which kinds of violation a check for a property reports.
pub fn relevant(id: &str, kind: &str) -> bool {
    let kinds: &[&str] = match id {
        "C01" => &["data", "rows", "false_ok", "false_err", "wrong_error", "panic", "hang", "livelock"],
        "C02" => &["data", "stored", "false_ok", "false_err", "wrong_error", "protocol", "panic", "hang", "livelock"],
        "C03" => &["data", "rows", "false_ok", "false_err", "wrong_error", "unknown_statement", "protocol", "stored", "panic", "hang", "livelock"],
        "C04" => &["data", "rows", "false_ok", "false_err", "wrong_error", "panic", "hang", "livelock"],
        "C05" => &["panic", "hang", "livelock", "recovery"],
        "C06" => &["data", "rows", "false_ok", "false_err", "panic", "hang", "livelock"],
        "C07" => &["pool_max", "panic"],
        "C08" => &["unserved", "hang", "livelock", "panic"],
        "C09" => &["rest", "leak", "capacity", "reuse", "panic", "hang", "livelock"],
        "C10" => &["late", "early", "false_err", "hang", "livelock", "panic"],
        "C11" => &["retry", "hang", "livelock", "panic"],
        "C12" => &["rotation", "address", "hang", "livelock", "panic"],
        "C13" => &["config", "protocol", "unknown_statement", "panic"],
        "C14" => &["prompt", "hang", "livelock", "panic"],
        "C15" => &["duplicate", "unknown_statement", "false_ok", "panic"],
        _ => &[],
    };
    kinds.contains(&kind)
}

pub fn own(kind: &OpKind) -> Option<What> {
    match kind {
        OpKind::Query { script, .. } | OpKind::Exec(script) => Some(What::Script(*script)),
        OpKind::Insert(i) => Some(What::Insert(*i)),
        _ => None,
    }
}

fn timeout_of(cfg: &Cfg, kind: &OpKind) -> Option<u64> {
    match kind {
        OpKind::Get => Some(cfg.conn_ms),
        OpKind::Ping => Some(cfg.ping_ms),
        OpKind::Query { mode: Mode::FetchAll, .. } => Some(cfg.query_ms),
        OpKind::Exec(_) => cfg.exec_ms,
        OpKind::Insert(_) => cfg.insert_ms,
        _ => None,
    }
}

fn chunks(p: &Plan, i: usize) -> usize {
    let rows = p.inserts[i].rows;
    ((rows + p.cfg.chunk - 1) / p.cfg.chunk).max(1)
}

struct O<'a> {
    p: &'a Plan,
    w: &'a World,
    out: Vec<Violation>,
}

fn name(r: &Rec) -> String {
    format!("task {} op {} ({:?}, {}..{} ms)", r.task, r.op, r.kind, r.start, r.end)
}

impl<'a> O<'a> {
    fn bad(&mut self, kind: &'static str, at: u64, text: String) {
        self.out.push(Violation { kind, text, at });
    }
    fn stmts(&self, what: &What) -> Vec<&'a Stmt> {
        self.w.stmts.iter().filter(|s| s.what == *what).collect()
    }
    fn delivered(&self, s: &Stmt, m: Mark) -> Option<u64> {
        let x = s.marks.iter().find(|x| x.2 == m)?;
        self.w.conns[s.conn].delivered(x.0)
    }

    /// Ok means that the operation's own reply arrived completely.
    fn truth(&mut self, r: &Rec) {
        if r.outcome != Outcome::Ok {
            return;
        }
        let n = name(r);
        match &r.kind {
            OpKind::Query { script, mode, .. } => {
                let s = &self.p.scripts[*script];
                if r.stopped_early {
                    return;
                }
                let st = self.stmts(&What::Script(*script));
                let end = st.iter().filter_map(|s| self.delivered(s, Mark::Eos)).min();
                if end.map_or(true, |t| t > r.end) {
                    return self.bad("false_ok", r.end, format!("{n} succeeded without the end of its reply"));
                }
                if s.flip.is_some() && self.p.cfg.compression {
                    return self.bad("false_ok", r.end, format!("{n} succeeded although a compressed block was altered"));
                }
                if r.rows != s.total_rows() {
                    self.bad("rows", r.end, format!("{n} ({mode:?}) gave {} rows, the server sent {}", r.rows, s.total_rows()));
                }
            }
            OpKind::Exec(script) => {
                let s = &self.p.scripts[*script];
                let st = self.stmts(&What::Script(*script));
                let end = st.iter().filter_map(|s| self.delivered(s, Mark::Eos)).min();
                if end.map_or(true, |t| t > r.end) {
                    return self.bad("false_ok", r.end, format!("{n} succeeded without the end of its reply"));
                }
                if s.flip.is_some() && self.p.cfg.compression {
                    self.bad("false_ok", r.end, format!("{n} succeeded although a compressed block was altered"));
                }
            }
            OpKind::Insert(i) => {
                if let Some(m) = self.p.inserts[*i].misfit {
                    return self.bad("false_ok", r.end, format!("{n} succeeded although the block does not fit the table ({m:?})"));
                }
                let st = self.stmts(&What::Insert(*i));
                if st.is_empty() || st.iter().any(|s| !s.complete) {
                    return self.bad("false_ok", r.end, format!("{n} succeeded, but the server has not confirmed it"));
                }
                let rows: usize = self.w.stored.iter().filter(|s| s.insert == *i).map(|s| s.rows).sum();
                if rows != self.p.inserts[*i].rows {
                    self.bad("stored", r.end, format!("{n} succeeded with {} rows, the server has {rows}", self.p.inserts[*i].rows));
                }
            }
            OpKind::Ping | OpKind::Check => {
                let any = self.w.conns.iter().any(|c| {
                    c.marks.iter().any(|m| m.1 && c.delivered(m.0).map_or(false, |t| t >= r.start && t <= r.end))
                });
                if !any {
                    self.bad("false_ok", r.end, format!("{n} succeeded without a pong"));
                }
            }
            _ => {}
        }
    }

    /// A reported exception is one the server sent for this operation.
    fn exceptions(&mut self, r: &Rec) {
        let Outcome::Err(Er::Server(e), _) = &r.outcome else { return };
        let mut allowed: Vec<&Exc> = vec![];
        match own(&r.kind) {
            Some(What::Script(i)) => {
                if self.stmts(&What::Script(i)).iter().any(|s| s.exc_sent) {
                    allowed.extend(self.p.scripts[i].exception());
                }
            }
            Some(What::Insert(i)) => {
                if self.stmts(&What::Insert(i)).iter().any(|s| s.exc_sent) {
                    if let Some((_, InsFail::ExcAtQuery(e) | InsFail::ExcAtData(e) | InsFail::ExcAtEnd(e))) = &self.p.inserts[i].fail {
                        allowed.push(e);
                    }
                }
            }
            None => {}
        }
        for s in &self.p.servers {
            for (_, b) in s.hello.iter().chain(&s.pong) {
                if let Break::Exception(e) = b {
                    allowed.push(e);
                }
            }
        }
        if !allowed.contains(&e) && !(e.code == 236 && self.p.faults.iter().any(|(_, f)| matches!(f, Fault::Farewell(_)))) {
            let n = name(r);
            self.bad("wrong_error", r.end, format!("{n} failed with the server exception {e:?}, which is not its own"));
        }
    }

    /// What a server has stored is a prefix of the given rows.
    fn stored(&mut self) {
        for (i, ins) in self.p.inserts.iter().enumerate() {
            let mut at = 0;
            let first = ins.from.as_ref().map_or(0, |f| f.first_row);
            for s in self.w.stored.iter().filter(|s| s.insert == i) {
                if at + s.rows > ins.rows {
                    self.bad("stored", 0, format!("the server received {} rows of insert {i}, {} were given", at + s.rows, ins.rows));
                    break;
                }
                for (c, col) in ins.cols.iter().enumerate() {
                    for k in 0..s.rows {
                        let want = convert(&col.src.ty.value(col.src.seed, first + at + k), &col.dst);
                        if s.cols[c][k] != want {
                            self.bad(
                                "stored",
                                0,
                                format!(
                                    "insert {i} column {:?} ({} -> {}) row {}: the server received {:?}, given was {want:?}",
                                    col.src.name,
                                    col.src.ty.name(),
                                    col.dst.name(),
                                    at + k,
                                    s.cols[c][k]
                                ),
                            );
                            return;
                        }
                    }
                }
                at += s.rows;
            }
        }
    }

    fn duplicates(&mut self) {
        for (i, s) in self.p.scripts.iter().enumerate() {
            let st = self.stmts(&What::Script(i));
            if st.len() > 1 {
                self.bad("duplicate", st[1].at, format!("the statement {:?} was executed {} times", s.sql, st.len()));
            }
            self.issued(What::Script(i), &st);
        }
        for i in 0..self.p.inserts.len() {
            let st = self.stmts(&What::Insert(i));
            let n = chunks(self.p, i);
            if st.len() > n {
                self.bad("duplicate", st[n].at, format!("insert {i} has {n} chunks, the servers got {} statements", st.len()));
            }
            if let Some(s) = st.iter().find(|s| s.server != st[0].server) {
                self.bad("duplicate", s.at, format!("insert {i} was sent to two servers"));
            }
            self.issued(What::Insert(i), &st);
        }
    }
    fn issued(&mut self, what: What, st: &[&Stmt]) {
        if st.is_empty() {
            return;
        }
        let op = self.w.hist.iter().find(|r| own(&r.kind) == Some(what.clone()));
        if op.map_or(true, |r| r.outcome == Outcome::Skipped || st[0].at < r.start) {
            self.bad("unknown_statement", st[0].at, format!("the statement {:?} was executed before or without being issued", st[0].sql));
        }
    }

    /// The connection of a failed operation is not used through another handle.
    fn reuse(&mut self) {
        for r in &self.w.hist {
            let Some(what) = own(&r.kind) else { continue };
            // what is left of a reply that came too late is skipped before the next use
            if !matches!(&r.outcome, Outcome::Err(e, _) if *e != Er::Timeout) {
                continue;
            }
            for s in self.stmts(&what) {
                for later in self.w.stmts.iter().filter(|x| x.conn == s.conn && x.seq > s.seq) {
                    let other = self.w.hist.iter().find(|x| own(&x.kind) == Some(later.what.clone()));
                    if let Some(o) = other {
                        if o.handle != r.handle {
                            self.bad(
                                "reuse",
                                later.at,
                                format!("{} failed on connection {}, which then went to {}", name(r), s.conn, name(o)),
                            );
                        }
                    }
                }
            }
        }
    }

    /// The scripted failure of an operation, if there is one: (exact exception, may it time out)
    fn scripted(&self, r: &Rec) -> Option<(Option<Exc>, bool)> {
        match own(&r.kind)? {
            What::Script(i) => {
                let s = &self.p.scripts[i];
                let cut = s.cut.as_ref().filter(|_| !self.w.stmts.iter().any(|t| t.what == What::Script(i) && t.complete));
                if let Some((_, how)) = cut {
                    return Some((None, *how == CutKind::Silent));
                }
                if s.flip.is_some() && self.p.cfg.compression {
                    return Some((None, true));
                }
                if let Some(e) = s.exception() {
                    return Some((Some(e.clone()), false));
                }
                if !s.completes() {
                    let stalls = s.steps.iter().any(|x| *x == Step::Stall) && !s.steps.iter().any(|x| matches!(x, Step::Raw(_)));
                    return Some((None, stalls));
                }
                None
            }
            What::Insert(i) => {
                let ins = &self.p.inserts[i];
                if ins.misfit.is_some() {
                    return Some((None, false));
                }
                let (k, f) = ins.fail.as_ref()?;
                if *k >= chunks(self.p, i) {
                    return None;
                }
                Some(match f {
                    InsFail::ExcAtQuery(e) | InsFail::ExcAtData(e) | InsFail::ExcAtEnd(e) => {
                        if ins.rows == 0 && matches!(f, InsFail::ExcAtData(_)) {
                            return None;
                        }
                        (Some(e.clone()), false)
                    }
                    InsFail::CloseAtQuery(h) | InsFail::CloseInData(_, h) | InsFail::CloseAtEnd(h) | InsFail::CutHeader(_, h) => {
                        if ins.rows == 0 && matches!(f, InsFail::CloseInData(..)) {
                            return None;
                        }
                        (None, *h == CutKind::Silent)
                    }
                })
            }
        }
    }

    /// Plans without network faults: every failure has to be explained, every scripted failure has to show.
    fn classify(&mut self, r: &Rec) {
        let cfg = &self.p.cfg;
        let n = name(r);
        let has_breaks = self.p.servers.iter().any(|s| !s.hello.is_empty() || !s.pong.is_empty());
        let handle_may_be_dead = (r.tainted || self.closes_before(r)) && (!cfg.ping_before || cfg.send_retries == 0);
        let timed_out = |r: &Rec| {
            let el = r.end - r.start;
            let mut ok = timeout_of(cfg, &r.kind).map_or(false, |t| el >= t);
            if cfg.ping_before || r.kind == OpKind::Check {
                ok |= el >= cfg.ping_ms;
            }
            ok
        };
        match &r.outcome {
            Outcome::Ok => {
                if r.stopped_early {
                    return;
                }
                if let Some((e, _)) = self.scripted(r) {
                    self.bad("false_ok", r.end, format!("{n} succeeded although its reply was broken (exception: {e:?})"));
                }
                if has_breaks && !cfg.ping_before && matches!(r.kind, OpKind::Ping) && self.w.srv.iter().zip(&self.p.servers).all(|(s, p)| p.pong.iter().any(|x| x.0 + 1 == s.pings)) {
                    self.bad("false_ok", r.end, format!("{n} succeeded although its reply was broken"));
                }
            }
            Outcome::Err(e, text) => {
                if *e == Er::Timeout && timed_out(r) && (cfg.query_ms < 1000 || self.scripted(r).map_or(false, |s| s.1)) {
                    return;
                }
                if r.kind == OpKind::Get {
                    let abandoned = self.w.hist.iter().any(|x| x.kind == OpKind::Get && x.outcome == Outcome::Cancelled && x.start <= r.start);
                    if *e == Er::Timeout && abandoned {
                        return;
                    }
                    match self.p.servers[0].hello.first() {
                        Some((_, Break::Exception(x))) => {
                            if *e != Er::Server(x.clone()) {
                                self.bad("wrong_error", r.end, format!("{n} failed with {text:?}, the server sent {x:?}"));
                            }
                        }
                        Some(_) => {
                            if *e == Er::Timeout {
                                self.bad("wrong_error", r.end, format!("{n} timed out, the server had closed the connection"));
                            }
                        }
                        None => self.bad("false_err", r.end, format!("{n} failed with {text:?}, nothing was wrong")),
                    }
                    return;
                }
                if has_breaks {
                    if let (OpKind::Ping, Some((_, b))) = (&r.kind, self.p.servers[0].pong.first()) {
                        match b {
                            Break::Exception(x) if *e != Er::Server(x.clone()) => {
                                self.bad("wrong_error", r.end, format!("{n} failed with {text:?}, the server sent {x:?}"))
                            }
                            _ if *e == Er::Timeout => {
                                self.bad("wrong_error", r.end, format!("{n} timed out, the server had closed the connection"))
                            }
                            _ => {}
                        }
                    }
                    return;
                }
                match self.scripted(r) {
                    Some(_) if handle_may_be_dead => {}
                    Some((Some(x), _)) => {
                        if *e != Er::Server(x.clone()) {
                            self.bad("wrong_error", r.end, format!("{n} failed with {text:?}, the server sent {x:?}"));
                        }
                    }
                    Some((None, slow)) => {
                        if *e == Er::Timeout && !slow {
                            self.bad("wrong_error", r.end, format!("{n} timed out, its reply was broken off"));
                        }
                    }
                    None => {
                        // a plain ping does not reconnect
                        if !handle_may_be_dead && !(r.kind == OpKind::Ping && r.tainted) {
                            self.bad("false_err", r.end, format!("{n} failed with {text:?}, nothing was wrong"));
                        }
                    }
                }
            }
            _ => {}
        }
    }

    /// The server may have closed the connection of this handle (or an idle one) before.
    fn closes_before(&self, r: &Rec) -> bool {
        self.w.conns.iter().any(|c| c.fin_at.map_or(false, |t| t <= r.end) || c.err.is_some())
    }

    fn no_errors(&mut self, r: &Rec) {
        match &r.outcome {
            Outcome::Err(_, text) => {
                let n = name(r);
                self.bad("false_err", r.end, format!("{n} failed with {text:?}, nothing was wrong"));
            }
            Outcome::Skipped => {}
            _ => {}
        }
    }

    fn recovered(&mut self, r: &Rec, after: u64) {
        if r.start < after || !self.p.cfg.ping_before || r.kind == OpKind::Get {
            return;
        }
        // a plain ping does not reconnect
        if r.kind == OpKind::Ping && r.prev.as_ref().map_or(true, |o| *o != Outcome::Ok) {
            return;
        }
        if let Outcome::Err(_, text) = &r.outcome {
            let n = name(r);
            self.bad("recovery", r.end, format!("{n} failed with {text:?} although the server is up again"));
        }
    }

    fn unserved(&mut self) {
        let cfg = &self.p.cfg;
        let waiters = self.p.tasks.len() as u64 + 2;
        let parks = *self.w.stats.get("fault_thread_stalled").unwrap_or(&0) * cfg.park_ms;
        let bound = waiters * (cfg.conn_ms + 20) * 2 + parks;
        for r in self.w.hist.iter().filter(|r| r.kind == OpKind::Get) {
            let end = if r.outcome == Outcome::Open { self.w.now } else { r.end };
            if end - r.start <= bound {
                continue;
            }
            // the longest time with free capacity while this waited
            let mut n: i64 = 0;
            let mut since = if cfg.max > 0 { Some(r.start) } else { None };
            let mut longest = 0;
            for (t, _, d) in self.w.lent.iter().chain(std::iter::once(&(end, 0, 0))) {
                let t = (*t).clamp(r.start, end);
                if let Some(s) = since {
                    longest = longest.max(t.saturating_sub(s));
                }
                n += d;
                since = if (n as usize) < cfg.max {
                    Some(since.unwrap_or(t).max(r.start))
                } else {
                    None
                };
            }
            if longest > bound {
                let m = name(r);
                self.bad(
                    "unserved",
                    end,
                    format!("{m} waited {} ms, for {longest} ms of which fewer than {} handles were in use", end - r.start, cfg.max),
                );
            }
        }
    }

    fn timeouts(&mut self, r: &Rec) {
        let cfg = &self.p.cfg;
        let n = name(r);
        let slack = 2;
        let el = r.end - r.start;
        let pings = cfg.ping_before && own(&r.kind).is_some();
        let limit = timeout_of(cfg, &r.kind);
        if let (Some(t), false) = (limit, matches!(r.outcome, Outcome::Skipped | Outcome::Open)) {
            if el > t + slack {
                self.bad("late", r.end, format!("{n} ended after {el} ms, its timeout is {t} ms"));
            }
        }
        if let Outcome::Err(Er::Timeout, _) = &r.outcome {
            let sent = own(&r.kind).map_or(false, |w| self.w.stmts.iter().any(|s| s.what == w));
            let mut fine = limit.map_or(false, |t| el >= t && el <= t + slack);
            if pings && !sent {
                fine |= el >= cfg.ping_ms && el <= cfg.ping_ms + slack;
            }
            if !fine {
                self.bad("early", r.end, format!("{n} timed out after {el} ms (its timeout is {limit:?} ms, that of pings {} ms)", cfg.ping_ms));
            }
        }
        // a reply that was there in time
        let arrived = match own(&r.kind) {
            Some(What::Script(i)) => self.stmts(&What::Script(i)).first().and_then(|s| self.delivered(s, Mark::Eos)),
            Some(What::Insert(i)) => {
                let st = self.stmts(&What::Insert(i));
                if st.len() == chunks(self.p, i) && st.iter().all(|s| s.complete) {
                    let c = &self.w.conns[st[0].conn];
                    let before = self
                        .w
                        .stmts
                        .iter()
                        .filter(|s| s.conn == st[0].conn && s.seq < st[0].seq && s.complete && matches!(s.what, What::Insert(_)))
                        .count();
                    c.marks.iter().filter(|m| !m.1).nth(before + st.len() - 1).and_then(|m| c.delivered(m.0))
                } else {
                    None
                }
            }
            None => None,
        };
        if let (Some(t), Outcome::Err(_, text)) = (arrived, &r.outcome) {
            if limit.map_or(true, |l| t + 1 < r.start + l) {
                self.bad("false_err", r.end, format!("{n} failed with {text:?} although its reply was there at {t} ms"));
            }
        }
        if let Outcome::Err(e, text) = &r.outcome {
            // only stalls are injected, so nothing else can fail
            let broken = r.tainted || r.prev.as_ref().map_or(false, |p| *p != Outcome::Ok);
            if *e != Er::Timeout && !broken {
                self.bad("false_err", r.end, format!("{n} failed with {text:?}, it could only have timed out"));
            }
        }
    }

    fn down_times(&self, s: usize) -> Vec<(u64, u64)> {
        let mut v = vec![];
        let mut since = self.p.servers[s].down.map(|_| 0);
        for (t, f) in &self.p.faults {
            match f {
                Fault::Down(x, _) if *x == s => since = since.or(Some(*t)),
                Fault::Up(x) if *x == s => {
                    if let Some(a) = since.take() {
                        v.push((a, *t));
                    }
                }
                _ => {}
            }
        }
        if let Some(a) = since {
            v.push((a, u64::MAX));
        }
        v
    }

    fn retry(&mut self, r: &Rec) {
        let cfg = &self.p.cfg;
        let n = name(r);
        if r.kind == OpKind::Get {
            if let Outcome::Err(_, t) = &r.outcome {
                self.bad("retry", r.end, format!("{n} failed with {t:?} before any outage"));
            }
            return;
        }
        if matches!(r.kind, OpKind::Ping) || matches!(r.outcome, Outcome::Skipped | Outcome::Open) {
            return;
        }
        let att: Vec<usize> = (r.conns_before..r.conns_after.min(self.w.conns.len()))
            .filter(|c| self.w.conns[*c].task == Some(r.task))
            .collect();
        // a fresh connection that the server greeted is a success
        let failed: Vec<usize> = att.iter().copied().filter(|c| self.w.conns[*c].s.st == crate::server::St::Hello || self.w.conns[*c].rx_total == 0).collect();
        for p in failed.windows(2) {
            let (a, b) = (&self.w.conns[p[0]], &self.w.conns[p[1]]);
            let end = a.closed_at.unwrap_or(a.opened);
            if b.opened < end + cfg.retry_ms {
                self.bad(
                    "retry",
                    b.opened,
                    format!("{n} tried again {} ms after an attempt failed, retry_timeout is {} ms", b.opened.saturating_sub(end), cfg.retry_ms),
                );
            }
        }
        if att.len() > failed.len() {
            // the attempt after the last failure keeps the distance, too
            if let Some(last) = failed.last() {
                if let Some(next) = att.iter().find(|c| *c > last) {
                    let end = self.w.conns[*last].closed_at.unwrap_or(0);
                    let t = self.w.conns[*next].opened;
                    if t < end + cfg.retry_ms {
                        self.bad("retry", t, format!("{n} tried again {} ms after an attempt failed, retry_timeout is {} ms", t - end, cfg.retry_ms));
                    }
                }
            }
        }
        if cfg.send_retries == 0 && !att.is_empty() {
            self.bad("retry", r.end, format!("{n} opened a connection, send_retries is 0"));
        }
        // connections that come about and break again cannot go on for ever either
        let most = 3 * (cfg.send_retries + 1) + if cfg.pooled { 2 * cfg.max } else { 0 };
        if att.len() > most {
            self.bad("retry", r.end, format!("{n} made {} attempts, send_retries is {}", att.len(), cfg.send_retries));
        }
        if failed.len() > cfg.send_retries + 1 {
            self.bad("retry", r.end, format!("{n} made {} failing attempts, send_retries is {}", failed.len(), cfg.send_retries));
        }
        if let Outcome::Err(_, text) = &r.outcome {
            let downs = self.down_times(0);
            for c in &att {
                let t = self.w.conns[*c].opened;
                let clear = downs.iter().all(|(a, b)| t + 700 < *a || t > b.saturating_add(20));
                if clear {
                    self.bad("retry", r.end, format!("{n} failed with {text:?}, but connected at {t} ms, when the server was up"));
                }
            }
            let want = if cfg.send_retries == 0 { 0 } else { cfg.send_retries + 1 };
            if failed.len() < want && att.len() == failed.len() {
                self.bad("retry", r.end, format!("{n} failed with {text:?} after {} failing attempts, send_retries is {}", failed.len(), cfg.send_retries));
            }
        }
    }

    fn rotation(&mut self) {
        let cfg = &self.p.cfg;
        let n = cfg.hosts.len();
        let named = !cfg.hosts[0].name.is_empty();
        let seq: Vec<(u64, usize)> = if named {
            self.w.resolved.iter().filter_map(|(t, name)| cfg.hosts.iter().position(|h| h.name == *name).map(|h| (*t, h))).collect()
        } else {
            self.w.attempts.iter().filter_map(|(t, s, _)| cfg.hosts.iter().position(|h| h.addrs.contains(s)).map(|h| (*t, h))).collect()
        };
        for p in seq.windows(2) {
            if p[1].1 != (p[0].1 + 1) % n {
                let all: Vec<usize> = seq.iter().map(|x| x.1).collect();
                self.bad("rotation", p[1].0, format!("hosts are tried in the order {all:?}, which is no rotation over {n} hosts"));
                break;
            }
        }
        let ever_down = |s: usize| !self.down_times(s).is_empty() || self.p.faults.iter().any(|(_, f)| matches!(f, Fault::CloseAll(x) | Fault::ResetAll(x) | Fault::Farewell(x) if *x == s));
        let bad_hosts: Vec<bool> = cfg.hosts.iter().map(|h| h.addrs.iter().all(|s| ever_down(*s))).collect();
        let mut errs = vec![];
        for r in self.w.hist.iter().filter(|r| r.kind == OpKind::Get) {
            if let Outcome::Err(_, text) = &r.outcome {
                let explained = self.w.conns.iter().any(|c| {
                    let h = cfg.hosts.iter().position(|h| h.addrs.contains(&c.server));
                    h.map_or(false, |h| bad_hosts[h]) && c.opened <= r.end && c.closed_at.map_or(true, |t| t >= r.start)
                });
                if !explained {
                    errs.push((r.end, format!("{} failed with {text:?} although every host tried had a working address", name(r))));
                }
            }
        }
        for (t, e) in errs {
            self.bad("address", t, e);
        }
    }

    fn prompt(&mut self, r: &Rec) {
        let n = name(r);
        match &r.kind {
            OpKind::Query { script, mode, pause, .. } => {
                let st = self.stmts(&What::Script(*script));
                let Some(s) = st.first() else { return };
                let blocks: Vec<(usize, Option<u64>)> =
                    s.marks.iter().filter(|m| m.2 == Mark::Block).map(|m| (m.1, self.w.conns[s.conn].delivered(m.0))).collect();
                if *mode != Mode::FetchAll {
                    for (asked, got, rows) in &r.items {
                        let d = blocks.iter().find(|b| b.0 >= *rows).and_then(|b| b.1);
                        let Some(d) = d else {
                            return self.bad("prompt", *got, format!("{n}: row {rows} was handed over before it arrived"));
                        };
                        if *got > d.max(*asked) {
                            return self.bad(
                                "prompt",
                                *got,
                                format!("{n}: row {rows} arrived at {d} ms, was asked for at {asked} ms and handed over at {got} ms"),
                            );
                        }
                    }
                    if pause.is_none() && !r.stopped_early {
                        let end = if r.outcome == Outcome::Open { self.w.now } else { r.end };
                        if let Some(b) = blocks.iter().rev().find(|b| b.1.map_or(false, |d| d < end)) {
                            if r.rows < b.0 {
                                return self.bad("prompt", end, format!("{n}: {} rows had arrived at {:?} ms, only {} were handed over", b.0, b.1, r.rows));
                            }
                        }
                    }
                }
                if pause.is_none() || *mode == Mode::FetchAll {
                    self.ends(r, s);
                }
            }
            OpKind::Exec(script) => {
                let st = self.stmts(&What::Script(*script));
                if let Some(s) = st.first() {
                    self.ends(r, s);
                }
            }
            OpKind::Insert(i) => {
                if let Some(m) = self.p.inserts[*i].misfit {
                    return self.bad("false_ok", r.end, format!("{n} succeeded although the block does not fit the table ({m:?})"));
                }
                let st = self.stmts(&What::Insert(*i));
                if st.is_empty() || r.outcome != Outcome::Ok {
                    return;
                }
                let c = &self.w.conns[st[0].conn];
                let last = c.marks.iter().filter(|m| !m.1).filter_map(|m| c.delivered(m.0)).filter(|t| *t >= r.start && *t <= r.end).last();
                if let Some(t) = last {
                    if r.end > t {
                        self.bad("prompt", r.end, format!("{n}: the confirmation arrived at {t} ms"));
                    }
                }
            }
            OpKind::Ping => {
                if r.outcome != Outcome::Ok {
                    return;
                }
                let t = self
                    .w
                    .conns
                    .iter()
                    .flat_map(|c| c.marks.iter().filter(|m| m.1).filter_map(|m| c.delivered(m.0)))
                    .filter(|t| *t >= r.start && *t <= r.end)
                    .max();
                if let Some(t) = t {
                    if r.end > t {
                        self.bad("prompt", r.end, format!("{n}: the pong arrived at {t} ms"));
                    }
                }
            }
            _ => {}
        }
    }
    fn ends(&mut self, r: &Rec, s: &Stmt) {
        let t = self.delivered(s, Mark::Eos).or(self.delivered(s, Mark::Exc));
        let n = name(r);
        if let Some(t) = t {
            let end = if r.outcome == Outcome::Open { self.w.now } else { r.end };
            if end > t.max(r.start) {
                self.bad("prompt", end, format!("{n}: the reply was complete at {t} ms, the operation ended at {end} ms"));
            }
        }
    }
}

pub fn check(end: &mut RunEnd) {
    let plan = end.world.plan.clone();
    let mut o = O { p: &plan, w: &end.world, out: vec![] };
    if end.hang {
        let ops: Vec<String> = end.world.hist.iter().filter(|r| r.outcome == Outcome::Open).map(name).collect();
        o.bad("hang", end.world.now, format!("tasks {:?} never finish; waiting in: {}", end.stuck_tasks, ops.join("; ")));
    }
    if end.livelock {
        let ops: Vec<String> = end.world.hist.iter().filter(|r| r.outcome == Outcome::Open).map(name).collect();
        o.bad("livelock", end.world.now, format!("no progress in {} steps at {} ms; running: {}", end.world.steps, end.world.now, ops.join("; ")));
    }
    let e = &plan.expect;
    for r in &end.world.hist {
        o.truth(r);
        o.exceptions(r);
        if e.no_errors {
            o.no_errors(r);
        }
        if e.classify {
            o.classify(r);
        }
        if let Some(t) = e.ok_after {
            o.recovered(r, t);
        }
        if e.timeouts {
            o.timeouts(r);
        }
        if e.retry {
            o.retry(r);
        }
        if e.prompt {
            o.prompt(r);
        }
    }
    o.stored();
    o.duplicates();
    o.reuse();
    let (n, min) = (o.w.conns.len(), o.p.cfg.min);
    if e.kept && min > 0 && o.p.tasks.len() == 1 && n > 1 {
        o.bad("rest", 0, format!("{} connections were opened one after the other, each was given back in good order, pool_min is {}", n, min));
    }
    if e.grow_bound.is_some() {
        o.unserved();
    }
    if e.rotation {
        o.rotation();
    }
    let out = o.out;
    end.world.violations.extend(out);
}
