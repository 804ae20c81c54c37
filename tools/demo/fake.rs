//! A small ClickHouse server for demonstrations: native protocol, revision 50000 (UTC, old
//! settings, no compression unless the demonstration does it itself), one thread per connection.
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};

pub struct Conn {
    pub s: TcpStream,
    pub id: usize,
    pub rev: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Pkt {
    Hello { db: String, user: String, pass: String },
    Query { qid: String, sql: String, settings: Vec<(String, String)>, compress: bool },
    /// columns: name, type, one byte vector per row
    Data(Vec<(String, String, Vec<Vec<u8>>)>, usize),
    Cancel,
    Ping,
    Gone,
}

pub fn uv(out: &mut Vec<u8>, mut n: u64) {
    while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}
pub fn st(out: &mut Vec<u8>, s: impl AsRef<[u8]>) {
    uv(out, s.as_ref().len() as u64);
    out.extend_from_slice(s.as_ref());
}
pub fn info(out: &mut Vec<u8>) {
    out.extend_from_slice(&[1, 0, 2, 0xff, 0xff, 0xff, 0xff, 0]);
}
/// the block itself, without packet code and table name
pub fn raw_block(cols: &[(&str, &str, Vec<u8>)], rows: usize) -> Vec<u8> {
    let mut b = vec![];
    info(&mut b);
    uv(&mut b, cols.len() as u64);
    uv(&mut b, rows as u64);
    for (n, t, d) in cols {
        st(&mut b, n);
        st(&mut b, t);
        b.extend_from_slice(d);
    }
    b
}
pub fn block(cols: &[(&str, &str, Vec<u8>)], rows: usize) -> Vec<u8> {
    let mut b = vec![1];
    st(&mut b, "");
    b.extend(raw_block(cols, rows));
    b
}
pub fn u64s(v: &[u64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
/// header block, then one block per slice
pub fn numbers(blocks: &[&[u64]]) -> Vec<u8> {
    let mut b = block(&[("n", "UInt64", vec![])], 0);
    for v in blocks {
        b.extend(block(&[("n", "UInt64", u64s(v))], v.len()));
    }
    b
}
pub const EOS: &[u8] = &[5];
pub const PONG: &[u8] = &[4];
pub fn exception(code: i32, name: &str, msg: &str) -> Vec<u8> {
    let mut b = vec![2];
    b.extend(code.to_le_bytes());
    st(&mut b, name);
    st(&mut b, msg);
    st(&mut b, "stack");
    b.push(0);
    b
}

impl Conn {
    fn byte(&mut self) -> Option<u8> {
        let mut b = [0];
        self.s.read_exact(&mut b).ok()?;
        Some(b[0])
    }
    fn uv(&mut self) -> Option<u64> {
        let (mut n, mut k) = (0, 0);
        loop {
            let b = self.byte()?;
            n |= ((b & 0x7f) as u64) << k;
            if b < 0x80 {
                return Some(n);
            }
            k += 7;
        }
    }
    fn take(&mut self, n: usize) -> Option<Vec<u8>> {
        let mut v = vec![0; n];
        self.s.read_exact(&mut v).ok()?;
        Some(v)
    }
    fn st(&mut self) -> Option<String> {
        let n = self.uv()? as usize;
        Some(String::from_utf8_lossy(&self.take(n)?).into())
    }
    pub fn send(&mut self, b: impl AsRef<[u8]>) {
        let _ = self.s.write_all(b.as_ref());
        let _ = self.s.flush();
    }
    /// Reads the next packet (uncompressed blocks only).
    pub fn next(&mut self) -> Pkt {
        self.packet().unwrap_or(Pkt::Gone)
    }
    fn packet(&mut self) -> Option<Pkt> {
        Some(match self.uv()? {
            0 => {
                self.st()?;
                for _ in 0..3 {
                    self.uv()?;
                }
                Pkt::Hello { db: self.st()?, user: self.st()?, pass: self.st()? }
            }
            1 => {
                self.st()?;
                self.uv()?;
                self.st()?;
                let qid = self.st()?;
                self.st()?;
                self.uv()?;
                self.st()?;
                self.st()?;
                self.st()?;
                for _ in 0..3 {
                    self.uv()?;
                }
                if self.rev >= 54060 {
                    self.st()?;
                }
                if self.rev >= 54401 {
                    self.uv()?;
                }
                let mut settings = vec![];
                loop {
                    let name = self.st()?;
                    if name.is_empty() {
                        break;
                    }
                    if self.rev >= 54429 {
                        self.byte()?;
                    }
                    settings.push((name, self.st()?));
                }
                self.uv()?;
                let compress = self.uv()? == 1;
                let sql = self.st()?;
                if !compress {
                    self.uv()?;
                    self.block()?;
                }
                Pkt::Query { qid, sql, settings, compress }
            }
            2 => {
                let (c, n) = self.block()?;
                Pkt::Data(c, n)
            }
            3 => Pkt::Cancel,
            4 => Pkt::Ping,
            x => panic!("packet {x}"),
        })
    }
    #[allow(clippy::type_complexity)]
    fn block(&mut self) -> Option<(Vec<(String, String, Vec<Vec<u8>>)>, usize)> {
        self.st()?;
        self.take(8)?;
        let (c, n) = (self.uv()?, self.uv()? as usize);
        let mut cols = vec![];
        for _ in 0..c {
            let (name, ty) = (self.st()?, self.st()?);
            let mut v = vec![];
            if let Some(inner) = ty.strip_prefix("Array(") {
                assert_eq!(inner, "UInt8)");
                let mut ends = vec![];
                for _ in 0..n {
                    ends.push(u64::from_le_bytes(self.take(8)?.try_into().unwrap()) as usize);
                }
                let mut at = 0;
                for e in ends {
                    v.push(self.take(e - at)?);
                    at = e;
                }
            } else if ty == "LowCardinality(String)" {
                let w = |b: Vec<u8>| u64::from_le_bytes(b.try_into().unwrap());
                if n > 0 {
                    assert_eq!(w(self.take(8)?), 1);
                    let width = 1usize << (w(self.take(8)?) & 3);
                    let mut keys = vec![];
                    for _ in 0..w(self.take(8)?) {
                        let n = self.uv()? as usize;
                        keys.push(self.take(n)?);
                    }
                    for _ in 0..w(self.take(8)?) {
                        let mut i = self.take(width)?;
                        i.resize(8, 0);
                        v.push(keys[w(i) as usize].clone());
                    }
                }
            } else {
                for _ in 0..n {
                    v.push(match ty.as_str() {
                        "UInt8" => self.take(1)?,
                        "UInt32" | "Int32" => self.take(4)?,
                        "UInt64" | "Int64" => self.take(8)?,
                        "String" => {
                            let n = self.uv()? as usize;
                            self.take(n)?
                        }
                        t => panic!("type {t}"),
                    });
                }
            }
            cols.push((name, ty, v));
        }
        Some((cols, n))
    }
    /// Answers the client's hello.
    pub fn hello(&mut self) -> Pkt {
        let p = self.next();
        if p == Pkt::Gone {
            return p;
        }
        let mut b = vec![0];
        st(&mut b, "fake");
        uv(&mut b, 1);
        uv(&mut b, 1);
        uv(&mut b, self.rev);
        if self.rev >= 54058 {
            st(&mut b, "UTC");
        }
        if self.rev >= 54372 {
            st(&mut b, "fake");
        }
        if self.rev >= 54401 {
            uv(&mut b, 0);
        }
        self.send(b);
        p
    }
    /// The next packet that is not a ping; pings are answered.
    pub fn request(&mut self) -> Pkt {
        loop {
            match self.next() {
                Pkt::Ping => self.send(PONG),
                p => return p,
            }
        }
    }
    /// The next query; pings are answered, a cancel ends the previous statement.
    pub fn query(&mut self) -> Option<String> {
        match self.request() {
            Pkt::Query { sql, .. } => Some(sql),
            Pkt::Gone => None,
            p => panic!("expected a query, got {p:?}"),
        }
    }
}

pub struct Server {
    pub port: u16,
    pub accepted: Arc<AtomicUsize>,
    pub open: Arc<AtomicUsize>,
}

impl Server {
    pub fn start(f: impl Fn(Conn) + Send + Sync + 'static) -> Server {
        Server::on(TcpListener::bind("127.0.0.1:0").unwrap(), 50000, f)
    }
    pub fn on(l: TcpListener, rev: u64, f: impl Fn(Conn) + Send + Sync + 'static) -> Server {
        let port = l.local_addr().unwrap().port();
        let accepted = Arc::new(AtomicUsize::new(0));
        let open = Arc::new(AtomicUsize::new(0));
        let (a, o, f) = (accepted.clone(), open.clone(), Arc::new(f));
        std::thread::spawn(move || {
            for s in l.incoming() {
                let s = s.unwrap();
                let _ = s.set_nodelay(true);
                let id = a.fetch_add(1, Ordering::SeqCst);
                o.fetch_add(1, Ordering::SeqCst);
                let (f, o) = (f.clone(), o.clone());
                std::thread::spawn(move || {
                    f(Conn { s, id, rev });
                    o.fetch_sub(1, Ordering::SeqCst);
                });
            }
        });
        Server { port, accepted, open }
    }
    pub fn url(&self, params: &str) -> String {
        format!("tcp://127.0.0.1:{}/?{params}", self.port)
    }
}

pub fn pause(ms: u64) {
    std::thread::sleep(std::time::Duration::from_millis(ms));
}
