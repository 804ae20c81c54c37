//! The workload: drives the real client through its public API and records a history.
use crate::plan::*;
use crate::rng::mix;
use crate::ty::*;
use crate::world::{self, with, Cli};
use chrono::{DateTime, Datelike, NaiveDate, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::errors::{DriverError, Error};
use clickhouse_rs::types::{
    Complex, Decimal, Enum16, Enum8, FromSql, FromSqlResult, Query, Simple, SqlType, Value, ValueRef,
};
use clickhouse_rs::{Block, ClientHandle, Options, Pool};
use either::Either;
use futures_util::StreamExt;
use std::cell::Cell;
use std::collections::HashMap;
use std::future::Future;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    Timeout,
    Server(Exc),
    Io(std::io::ErrorKind),
    Conn,
    Driver,
    FromSql,
    Other,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Err(Er, String),
    Cancelled,
    /// there was no handle to work with
    Skipped,
    /// never returned
    Open,
}

/// One operation in the history.
#[derive(Clone, Debug)]
pub struct Rec {
    pub task: usize,
    pub op: usize,
    pub kind: OpKind,
    pub start: u64,
    pub end: u64,
    pub outcome: Outcome,
    /// rows handed over (all compared with the script)
    pub rows: usize,
    /// (time asked, time received, rows so far) of every item of a stream
    pub items: Vec<(u64, u64, usize)>,
    /// which acquisition of a handle this works on (index into hist)
    pub handle: Option<usize>,
    /// an earlier operation on the same handle failed or was cancelled
    pub tainted: bool,
    /// connections that existed when the operation started
    pub conns_before: usize,
    pub conns_after: usize,
    pub stopped_early: bool,
    /// what the previous operation on this handle left
    pub prev: Option<Outcome>,
}

pub fn classify(e: &Error) -> Er {
    match e {
        Error::Driver(DriverError::Timeout) => Er::Timeout,
        Error::Driver(_) => Er::Driver,
        Error::Server(s) => Er::Server(Exc {
            code: s.code,
            name: s.name.clone(),
            message: s.message.clone(),
            stack: s.stack_trace.clone(),
        }),
        Error::Io(e) => Er::Io(e.kind()),
        Error::Connection(_) => Er::Conn,
        Error::FromSql(_) => Er::FromSql,
        _ => Er::Other,
    }
}

// ---- options ----

pub enum Source {
    Url(String),
    Opt(Box<Options>),
}

fn pct(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() {
            o.push(b as char)
        } else {
            o.push_str(&format!("%{b:02X}"))
        }
    }
    o
}

pub fn host_text(cfg: &Cfg, h: &Host) -> String {
    let name = if h.name.is_empty() { world::World::addr(cfg, h.addrs[0]).ip().to_string() } else { h.name.clone() };
    if h.port == 0 {
        name
    } else {
        format!("{name}:{}", h.port)
    }
}

pub fn source(cfg: &Cfg) -> Source {
    let host = host_text(cfg, &cfg.hosts[0]);
    if !cfg.via_url {
        let url = url::Url::parse(&format!("tcp://{host}")).unwrap();
        let mut o = Options::new(url)
            .database(&cfg.db)
            .username(&cfg.user)
            .password(&cfg.pass)
            .pool_min(cfg.min)
            .pool_max(cfg.max)
            .nodelay(cfg.nodelay)
            .ping_before_query(cfg.ping_before)
            .send_retries(cfg.send_retries)
            .retry_timeout(Duration::from_millis(cfg.retry_ms))
            .ping_timeout(Duration::from_millis(cfg.ping_ms))
            .connection_timeout(Duration::from_millis(cfg.conn_ms))
            .query_timeout(Duration::from_millis(cfg.query_ms))
            .insert_timeout(cfg.insert_ms.map(Duration::from_millis))
            .execute_timeout(cfg.exec_ms.map(Duration::from_millis))
            .alt_hosts(
                cfg.hosts[1..]
                    .iter()
                    .map(|h| url::Url::parse(&format!("tcp://{}", host_text(cfg, h))).unwrap())
                    .collect::<Vec<_>>(),
            );
        if cfg.compression {
            o = o.with_compression();
        }
        for (n, v, imp) in &cfg.settings {
            o = match v {
                SetVal::S(s) => o.with_setting(n, s.as_str(), *imp),
                SetVal::B(b) => o.with_setting(n, *b, *imp),
                SetVal::U(u) if *u == 127 => o.with_setting(n, *u as i32, *imp),
                SetVal::U(u) if *u == 65536 => o.with_setting(n, *u as i64, *imp),
                SetVal::U(u) => o.with_setting(n, *u, *imp),
                SetVal::F(f) => o.with_setting(n, *f, *imp),
            };
        }
        return Source::Opt(Box::new(o));
    }
    let mut cred = String::new();
    if cfg.user != "default" || !cfg.pass.is_empty() || cfg.url_full {
        cred = pct(&cfg.user);
        if !cfg.pass.is_empty() {
            cred.push(':');
            cred.push_str(&pct(&cfg.pass));
        }
        cred.push('@');
    }
    let db = if cfg.db != "default" || cfg.url_full { format!("/{}", pct(&cfg.db)) } else { String::new() };
    let dur = |ms: u64| if ms % 1000 == 0 { format!("{}s", ms / 1000) } else { format!("{ms}ms") };
    let opt = |ms: Option<u64>| ms.map_or("none".into(), dur);
    let mut p: Vec<(String, String)> = vec![];
    let mut put = |n: &str, v: String, default: &str| {
        if cfg.url_full || v != default {
            p.push((n.to_string(), v));
        }
    };
    put("pool_min", cfg.min.to_string(), "10");
    put("pool_max", cfg.max.to_string(), "20");
    put("nodelay", cfg.nodelay.to_string(), "true");
    put("ping_before_query", cfg.ping_before.to_string(), "true");
    put("send_retries", cfg.send_retries.to_string(), "3");
    put("retry_timeout", dur(cfg.retry_ms), "5s");
    put("ping_timeout", dur(cfg.ping_ms), "500ms");
    put("connection_timeout", dur(cfg.conn_ms), "500ms");
    put("query_timeout", dur(cfg.query_ms), "180s");
    put("insert_timeout", opt(cfg.insert_ms), "180s");
    put("execute_timeout", opt(cfg.exec_ms), "180s");
    put("compression", if cfg.compression { "lz4" } else { "none" }.into(), "none");
    if cfg.hosts.len() > 1 {
        let l: Vec<String> = cfg.hosts[1..].iter().map(|h| host_text(cfg, h)).collect();
        p.push(("alt_hosts".into(), l.join(",")));
    }
    for (n, v, _) in &cfg.settings {
        let v = match v {
            SetVal::S(s) => s.clone(),
            SetVal::B(b) => b.to_string(),
            SetVal::U(u) => u.to_string(),
            SetVal::F(f) => f.to_string(),
        };
        p.push((n.clone(), v));
    }
    let q: Vec<String> = p
        .iter()
        .map(|(n, v)| format!("{}={}", n, if n == "alt_hosts" { v.clone() } else { pct(v) }))
        .collect();
    let q = if q.is_empty() { String::new() } else { format!("?{}", q.join("&")) };
    let db = if db.is_empty() && !q.is_empty() { "/".to_string() } else { db };
    Source::Url(format!("tcp://{cred}{host}{db}{q}"))
}

// ---- reading values ----

pub struct Cv {
    pub v: Val,
    /// All time zones that occur.
    pub tz: Vec<Tz>,
}

fn zones(v: &ValueRef, out: &mut Vec<Tz>) {
    let mut add = |tz: Tz| {
        if !out.contains(&tz) {
            out.push(tz)
        }
    };
    match v {
        ValueRef::DateTime(_, tz) => add(*tz),
        ValueRef::DateTime64(_, p) => add(p.1),
        ValueRef::Nullable(Either::Right(x)) => zones(x, out),
        ValueRef::Array(_, xs) => xs.iter().for_each(|x| zones(x, out)),
        ValueRef::Map(_, _, m) => m.values().for_each(|x| zones(x, out)),
        _ => {}
    }
}

fn canon(v: &ValueRef) -> Val {
    match v {
        ValueRef::Bool(x) => Val::Bool(*x),
        ValueRef::UInt8(x) => Val::U8(*x),
        ValueRef::UInt16(x) => Val::U16(*x),
        ValueRef::UInt32(x) => Val::U32(*x),
        ValueRef::UInt64(x) => Val::U64(*x),
        ValueRef::UInt128(x) => Val::U128(*x),
        ValueRef::Int8(x) => Val::I8(*x),
        ValueRef::Int16(x) => Val::I16(*x),
        ValueRef::Int32(x) => Val::I32(*x),
        ValueRef::Int64(x) => Val::I64(*x),
        ValueRef::Int128(x) => Val::I128(*x),
        ValueRef::String(x) => Val::Bytes(x.to_vec()),
        ValueRef::Float32(x) => Val::F32(x.to_bits()),
        ValueRef::Float64(x) => Val::F64(x.to_bits()),
        ValueRef::Date(x) => Val::Date(*x),
        ValueRef::DateTime(x, _) => Val::DateTime(*x),
        ValueRef::DateTime64(x, p) => Val::DateTime64(*x, p.0),
        ValueRef::Nullable(Either::Left(_)) => Val::Null,
        ValueRef::Nullable(Either::Right(x)) => canon(x),
        ValueRef::Array(_, xs) => Val::Array(xs.iter().map(canon).collect()),
        ValueRef::Decimal(d) => Val::Dec(d.internal::<i64>(), d.scale() as u8),
        ValueRef::Ipv4(x) => Val::V4(u32::from_le_bytes(*x)),
        ValueRef::Ipv6(x) => Val::V6(*x),
        ValueRef::Uuid(x) => Val::Uuid(unswap(*x)),
        ValueRef::Enum8(_, e) => Val::Enum8(e.internal()),
        ValueRef::Enum16(_, e) => Val::Enum16(e.internal()),
        ValueRef::Map(_, _, m) => {
            let mut v: Vec<_> = m.iter().map(|(k, v)| (canon(k), canon(v))).collect();
            v.sort();
            Val::Map(v)
        }
    }
}
fn unswap(mut x: [u8; 16]) -> [u8; 16] {
    x[..8].reverse();
    x[8..].reverse();
    x
}

impl<'a> FromSql<'a> for Cv {
    fn from_sql(value: ValueRef<'a>) -> FromSqlResult<Self> {
        let mut tz = vec![];
        zones(&value, &mut tz);
        Ok(Cv { v: canon(&value), tz })
    }
}

/// The same by way of an owned value.
pub struct Owned(Val);
impl<'a> FromSql<'a> for Owned {
    fn from_sql(value: ValueRef<'a>) -> FromSqlResult<Self> {
        let v = Value::from(value);
        Ok(Owned(canon(&ValueRef::from(&v))))
    }
}

fn mismatch(text: String) {
    with(|w| w.violate("data", text));
}

fn check_type(sql: &str, c: usize, name: &str, ty: &str, want: &Col) -> bool {
    if name != want.name {
        mismatch(format!("{sql:?}: column {c} is called {name:?}, the server sent {:?}", want.name));
        return false;
    }
    let got = Ty::parse(ty);
    if got.as_ref().map(|t| t.no_tz()) != Some(want.ty.no_tz()) {
        mismatch(format!("{sql:?}: column {c} has type {ty}, the server sent {}", want.ty.name()));
        return false;
    }
    true
}

fn want_tz(ty: &Ty) -> Option<Tz> {
    let plan = with(|w| w.plan.clone());
    match ty {
        Ty::Low(t) | Ty::Agg(_, t) | Ty::Nullable(t) | Ty::Array(t) | Ty::Map(_, t) => want_tz(t),
        Ty::DateTime(Some(z)) | Ty::DateTime64(_, Some(z)) => z.parse().ok(),
        Ty::DateTime(None) | Ty::DateTime64(_, None) if plan.servers[0].revision >= 54058 => {
            plan.servers[0].tz.parse().ok()
        }
        _ => None,
    }
}

fn check_cell(sql: &str, row: usize, col: &Col, got: Result<Cv, Error>) -> bool {
    let want = col.ty.value(col.seed, row);
    match got {
        Ok(g) if g.v == want => {
            if !g.tz.is_empty() {
                let w = want_tz(&col.ty);
                if let (Some(t), Some(w)) = (g.tz.iter().find(|t| Some(**t) != w), w) {
                    mismatch(format!("{sql:?}: row {row} column {:?} has time zone {t}, should be {w}", col.name));
                    return false;
                }
            }
            true
        }
        Ok(g) => {
            mismatch(format!("{sql:?}: row {row} column {:?} is {:?}, the server sent {want:?}", col.name, g.v));
            false
        }
        Err(e) => {
            mismatch(format!("{sql:?}: row {row} column {:?} cannot be read: {e}", col.name));
            false
        }
    }
}

/// What a typed getter or iterator returned, as a model value.
trait ToVal {
    fn val(self, ty: &Ty) -> Val;
}
fn core(ty: &Ty) -> &Ty {
    match ty {
        Ty::Low(t) | Ty::Agg(_, t) => core(t),
        t => t,
    }
}
macro_rules! to_val {
    ($($t:ty: $k:ident),*) => {
        $(
            impl ToVal for $t {
                fn val(self, _: &Ty) -> Val { Val::$k(self) }
            }
            impl ToVal for &$t {
                fn val(self, _: &Ty) -> Val { Val::$k(*self) }
            }
        )*
    };
}
to_val! { bool: Bool, u8: U8, u16: U16, u32: U32, u64: U64, u128: U128, i8: I8, i16: I16, i32: I32, i64: I64, i128: I128 }
macro_rules! to_val_by {
    ($($t:ty: $x:ident $ty:ident => $e:expr),*) => {
        $(impl ToVal for $t {
            fn val(self, ty: &Ty) -> Val { let ($x, $ty) = (self, ty); let _ = $ty; $e }
        })*
    };
}
to_val_by! {
    f32: x _t => Val::F32(x.to_bits()),
    &f32: x _t => Val::F32(x.to_bits()),
    f64: x _t => Val::F64(x.to_bits()),
    &f64: x _t => Val::F64(x.to_bits()),
    &[u8]: x _t => Val::Bytes(x.to_vec()),
    &str: x _t => Val::Bytes(x.as_bytes().to_vec()),
    String: x _t => Val::Bytes(x.into_bytes()),
    NaiveDate: x _t => date_val(&x),
    DateTime<Tz>: x ty => {
        if let Some(w) = want_tz(ty) {
            if x.timezone() != w {
                mismatch(format!("{ty:?} read as a time in {}, should be {w}", x.timezone()));
            }
        }
        stamp_val(x.timestamp(), x.timestamp_subsec_nanos(), ty)
    },
    chrono::NaiveDateTime: x ty => stamp_val(x.and_utc().timestamp(), x.and_utc().timestamp_subsec_nanos(), ty),
    Ipv4Addr: x _t => Val::V4(u32::from(x)),
    Ipv6Addr: x _t => Val::V6(x.octets()),
    uuid::Uuid: x _t => Val::Uuid(*x.as_bytes()),
    Decimal: x _t => Val::Dec(x.internal::<i64>(), x.scale() as u8),
    Enum8: x _t => Val::Enum8(x.internal()),
    Enum16: x _t => Val::Enum16(x.internal())
}
impl<T: ToVal> ToVal for Option<T> {
    fn val(self, ty: &Ty) -> Val {
        match (self, core(ty)) {
            (None, _) => Val::Null,
            (Some(x), Ty::Nullable(t)) => x.val(t),
            (Some(x), t) => x.val(t),
        }
    }
}
impl<T: ToVal> ToVal for Vec<T> {
    fn val(self, ty: &Ty) -> Val {
        match core(ty) {
            Ty::Array(t) => Val::Array(self.into_iter().map(|x| x.val(t)).collect()),
            _ => Val::Bytes(self.into_iter().map(|x| if let Val::U8(b) = x.val(&Ty::U8) { b } else { 0 }).collect()),
        }
    }
}
impl<K: ToVal, V: ToVal> ToVal for HashMap<K, V> {
    fn val(self, ty: &Ty) -> Val {
        let Ty::Map(kt, vt) = core(ty) else { panic!("harness: map of {ty:?}") };
        let mut v: Vec<_> = self.into_iter().map(|(k, v)| (k.val(kt), v.val(vt))).collect();
        v.sort();
        Val::Map(v)
    }
}
fn stamp_val(secs: i64, nanos: u32, ty: &Ty) -> Val {
    match core(ty) {
        Ty::DateTime64(p, _) => {
            Val::DateTime64((secs as i128 * 10i128.pow(*p)) as i64 + nanos as i64 / 10i64.pow(9 - *p), *p)
        }
        _ => Val::DateTime(secs as u32),
    }
}
fn date_val(d: &NaiveDate) -> Val {
    let epoch = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
    Val::Date((d.num_days_from_ce() - epoch.num_days_from_ce()) as u16)
}
fn text(v: &Val) -> bool {
    match v {
        Val::Bytes(b) => std::str::from_utf8(b).is_ok(),
        _ => true,
    }
}

macro_rules! typed {
    ($fname:ident, $k:ty) => {
        /// Reads the column through the typed iterators and getters a user would pick.
        fn $fname(sql: &str, b: &Block<$k>, c: usize, col: &Col, first: usize) {
            let column = &b.columns()[c];
            let n = b.row_count();
            let want: Vec<Val> = (first..first + n).map(|r| col.ty.value(col.seed, r)).collect();
            let pick = mix(col.seed ^ first as u64);
            macro_rules! it {
                ($t:ty) => {
                    match column.iter::<$t>() {
                        Err(e) => mismatch(format!("{sql:?}: column {:?} of type {} cannot be iterated as {}: {e}", col.name, col.ty.name(), stringify!($t))),
                        Ok(mut i) => {
                            let (lo, hi) = i.size_hint();
                            if lo > n || hi.map_or(false, |h| h < n) {
                                mismatch(format!("{sql:?}: iterating column {:?} as {} has the size hint {:?}, there are {n} values", col.name, stringify!($t), (lo, hi)));
                            }
                            let mut want = &want[..];
                            match pick % 4 {
                                0 => {
                                    let k = (pick >> 8) as usize % (n + 1);
                                    match i.nth(k) {
                                        None if k < n => mismatch(format!("{sql:?}: element {k} of column {:?} of {n} rows as {} is missing", col.name, stringify!($t))),
                                        Some(x) => {
                                            let x = x.val(&col.ty);
                                            if k >= n || x != want[k] {
                                                mismatch(format!("{sql:?}: element {k} of column {:?} as {} is {x:?}, the server sent {want:?}", col.name, stringify!($t)));
                                            }
                                        }
                                        None => {}
                                    }
                                    want = &want[(k + 1).min(n)..];
                                }
                                1 => match column.iter::<$t>().map(|i| i.count()) {
                                    Ok(m) if m == n => {}
                                    m => mismatch(format!("{sql:?}: column {:?} as {} counts {m:?} values of {n}", col.name, stringify!($t))),
                                },
                                _ => {}
                            }
                            let got: Vec<Val> = i.map(|x| x.val(&col.ty)).collect();
                            if got != want {
                                mismatch(format!("{sql:?}: iterating column {:?} as {} gives {got:?}, the server sent {want:?}", col.name, stringify!($t)));
                            }
                        }
                    }
                };
            }
            macro_rules! get {
                ($t:ty) => {
                    for r in 0..n {
                        match b.get::<$t, _>(r, c) {
                            Err(e) => mismatch(format!("{sql:?}: row {} column {:?} of type {} cannot be read as {}: {e}", first + r, col.name, col.ty.name(), stringify!($t))),
                            Ok(x) => {
                                let x: Val = x.val(&col.ty);
                                if x != want[r] {
                                    mismatch(format!("{sql:?}: row {} column {:?} read as {} is {x:?}, the server sent {:?}", first + r, col.name, stringify!($t), want[r]));
                                }
                            }
                        }
                    }
                };
            }
            macro_rules! both {
                ($t:ty) => {{
                    it!($t);
                    get!($t);
                }};
            }
            // text that is not UTF-8 is not handed over as text
            macro_rules! get_text {
                ($t:ty) => {
                    for r in 0..n {
                        match (b.get::<$t, _>(r, c), text(&want[r])) {
                            (Ok(x), true) if x.clone().val(&col.ty) == want[r] => {}
                            (Err(_), false) => {}
                            (g, _) => mismatch(format!("{sql:?}: row {} column {:?} read as {} is {g:?}, the server sent {:?}", first + r, col.name, stringify!($t), want[r])),
                        }
                    }
                };
            }
            macro_rules! wrong {
                ($t:ty) => {{
                    if let Ok(i) = column.iter::<$t>() {
                        let got: Vec<Val> = i.take(3).map(|x| x.val(&col.ty)).collect();
                        mismatch(format!("{sql:?}: column {:?} of type {} can be iterated as {}: {got:?}", col.name, col.ty.name(), stringify!($t)));
                    }
                    if let Some(Ok(x)) = (n > 0).then(|| b.get::<$t, _>(0, c)) {
                        mismatch(format!("{sql:?}: row 0 of column {:?} of type {} can be read as {}: {:?}", col.name, col.ty.name(), stringify!($t), x.val(&col.ty)));
                    }
                }};
            }
            macro_rules! map_of {
                ($kt:ty, $v:expr) => {
                    match $v {
                        Ty::Bool => both!(HashMap<$kt, bool>),
                        Ty::U8 => both!(HashMap<$kt, u8>),
                        Ty::U16 => both!(HashMap<$kt, u16>),
                        Ty::U64 => both!(HashMap<$kt, u64>),
                        Ty::I16 => both!(HashMap<$kt, i16>),
                        Ty::I128 => both!(HashMap<$kt, i128>),
                        Ty::F64 => both!(HashMap<$kt, f64>),
                        Ty::Str => both!(HashMap<$kt, &[u8]>),
                        Ty::Date => both!(HashMap<$kt, NaiveDate>),
                        Ty::DateTime(_) | Ty::DateTime64(..) => both!(HashMap<$kt, DateTime<Tz>>),
                        Ty::Dec(..) => both!(HashMap<$kt, Decimal>),
                        Ty::Uuid => both!(HashMap<$kt, uuid::Uuid>),
                        Ty::V4 => both!(HashMap<$kt, Ipv4Addr>),
                        Ty::Nullable(t) if **t == Ty::I32 => both!(HashMap<$kt, Option<i32>>),
                        Ty::Nullable(t) if **t == Ty::Date => both!(HashMap<$kt, Option<NaiveDate>>),
                        Ty::Array(t) if **t == Ty::U32 => both!(HashMap<$kt, Vec<u32>>),
                        Ty::Map(k, v) if **k == Ty::U16 && **v == Ty::U32 => both!(HashMap<$kt, HashMap<u16, u32>>),
                        Ty::Array(t) => match &**t {
                            Ty::Map(k, v) if **k == Ty::U16 && **v == Ty::U32 => it!(HashMap<$kt, Vec<HashMap<u16, u32>>>),
                            _ => {}
                        },
                        _ => {}
                    }
                };
            }
            match &col.ty {
                Ty::Bool => both!(bool),
                Ty::U8 => both!(u8),
                Ty::U16 => both!(u16),
                Ty::U32 => both!(u32),
                Ty::U64 => both!(u64),
                Ty::U128 => both!(u128),
                Ty::I8 => both!(i8),
                Ty::I16 => both!(i16),
                Ty::I32 => both!(i32),
                Ty::I64 => both!(i64),
                Ty::I128 => both!(i128),
                Ty::F32 => both!(f32),
                Ty::F64 => both!(f64),
                Ty::Str | Ty::Fixed(_) => {
                    both!(&[u8]);
                    get!(Vec<u8>);
                    get_text!(String);
                    get_text!(&str);
                }
                Ty::Date => both!(NaiveDate),
                Ty::DateTime(_) | Ty::DateTime64(..) => {
                    both!(DateTime<Tz>);
                    it!(chrono::NaiveDateTime);
                }
                Ty::V4 => both!(Ipv4Addr),
                Ty::V6 => both!(Ipv6Addr),
                Ty::Uuid => both!(uuid::Uuid),
                Ty::Dec(..) => both!(Decimal),
                Ty::Enum8(_) => get!(Enum8),
                Ty::Enum16(_) => get!(Enum16),
                Ty::Nullable(t) => match &**t {
                    Ty::Bool => both!(Option<bool>),
                    Ty::U8 => both!(Option<u8>),
                    Ty::U16 => both!(Option<u16>),
                    Ty::U32 => both!(Option<u32>),
                    Ty::U64 => both!(Option<u64>),
                    Ty::U128 => both!(Option<u128>),
                    Ty::I8 => both!(Option<i8>),
                    Ty::I16 => both!(Option<i16>),
                    Ty::I32 => both!(Option<i32>),
                    Ty::I64 => both!(Option<i64>),
                    Ty::I128 => both!(Option<i128>),
                    Ty::F32 => both!(Option<f32>),
                    Ty::F64 => both!(Option<f64>),
                    Ty::Str => {
                        both!(Option<&[u8]>);
                        get!(Option<String>);
                    }
                    Ty::Fixed(_) => both!(Option<&[u8]>),
                    Ty::Date => both!(Option<NaiveDate>),
                    Ty::DateTime(_) | Ty::DateTime64(..) => {
                        both!(Option<DateTime<Tz>>);
                        it!(Option<chrono::NaiveDateTime>);
                    }
                    Ty::V4 => both!(Option<Ipv4Addr>),
                    Ty::V6 => both!(Option<Ipv6Addr>),
                    Ty::Uuid => both!(Option<uuid::Uuid>),
                    Ty::Dec(..) => both!(Option<Decimal>),
                    Ty::Enum8(_) => get!(Option<Enum8>),
                    Ty::Enum16(_) => get!(Option<Enum16>),
                    _ => {}
                },
                Ty::Array(t) => match &**t {
                    Ty::Bool => both!(Vec<bool>),
                    Ty::U8 => both!(Vec<u8>),
                    Ty::U16 => both!(Vec<u16>),
                    Ty::U32 => both!(Vec<u32>),
                    Ty::U64 => both!(Vec<u64>),
                    Ty::U128 => both!(Vec<u128>),
                    Ty::I8 => both!(Vec<i8>),
                    Ty::I16 => both!(Vec<i16>),
                    Ty::I32 => both!(Vec<i32>),
                    Ty::I64 => both!(Vec<i64>),
                    Ty::I128 => both!(Vec<i128>),
                    Ty::F32 => both!(Vec<f32>),
                    Ty::F64 => both!(Vec<f64>),
                    Ty::Str => {
                        both!(Vec<&[u8]>);
                        get!(Vec<&str>);
                        get!(Vec<String>);
                        get!(Vec<Vec<u8>>);
                    }
                    Ty::Fixed(_) => it!(Vec<&[u8]>),
                    Ty::Date => both!(Vec<NaiveDate>),
                    Ty::DateTime(_) | Ty::DateTime64(..) => {
                        both!(Vec<DateTime<Tz>>);
                        it!(Vec<chrono::NaiveDateTime>);
                    }
                    Ty::V4 => it!(Vec<Ipv4Addr>),
                    Ty::V6 => it!(Vec<Ipv6Addr>),
                    Ty::Uuid => it!(Vec<uuid::Uuid>),
                    Ty::Dec(..) => it!(Vec<Decimal>),
                    Ty::Enum8(_) => get!(Vec<Enum8>),
                    Ty::Enum16(_) => get!(Vec<Enum16>),
                    Ty::Nullable(t) => match &**t {
                        Ty::U8 => it!(Vec<Option<u8>>),
                        Ty::U32 => it!(Vec<Option<u32>>),
                        Ty::I64 => it!(Vec<Option<i64>>),
                        Ty::Str => it!(Vec<Option<&[u8]>>),
                        Ty::Date => it!(Vec<Option<NaiveDate>>),
                        Ty::DateTime(_) | Ty::DateTime64(..) => it!(Vec<Option<DateTime<Tz>>>),
                        Ty::Dec(..) => it!(Vec<Option<Decimal>>),
                        Ty::V4 => it!(Vec<Option<Ipv4Addr>>),
                        _ => {}
                    },
                    Ty::Array(t) => match &**t {
                        Ty::U8 => it!(Vec<Vec<u8>>),
                        Ty::U32 => it!(Vec<Vec<u32>>),
                        Ty::I64 => it!(Vec<Vec<i64>>),
                        Ty::Str => it!(Vec<Vec<&[u8]>>),
                        Ty::Date => it!(Vec<Vec<NaiveDate>>),
                        Ty::DateTime(_) | Ty::DateTime64(..) => it!(Vec<Vec<DateTime<Tz>>>),
                        _ => {}
                    },
                    Ty::Map(k, v) if **k == Ty::U16 && **v == Ty::U32 => it!(Vec<HashMap<u16, u32>>),
                    _ => {}
                },
                Ty::Map(k, v) => match &**k {
                    Ty::Str => {
                        map_of!(&[u8], &**v);
                        if **v == Ty::Str {
                            get!(HashMap<String, String>);
                            get!(HashMap<&str, &str>);
                        }
                    }
                    Ty::Fixed(_) => map_of!(&[u8], &**v),
                    Ty::U8 => map_of!(u8, &**v),
                    Ty::U32 => map_of!(u32, &**v),
                    Ty::I64 => map_of!(i64, &**v),
                    _ => {}
                },
                Ty::Low(t) => match &**t {
                    Ty::Str | Ty::Fixed(_) => {
                        both!(&[u8]);
                        get_text!(String);
                    }
                    Ty::Date => both!(NaiveDate),
                    Ty::DateTime(_) | Ty::DateTime64(..) => {
                        both!(DateTime<Tz>);
                        it!(chrono::NaiveDateTime);
                    }
                    Ty::U16 => get!(u16),
                    Ty::U32 => get!(u32),
                    Ty::U64 => get!(u64),
                    Ty::I64 => get!(i64),
                    _ => {}
                },
                Ty::Agg(_, t) => match &**t {
                    Ty::U8 => both!(u8),
                    Ty::U32 => both!(u32),
                    Ty::U64 => both!(u64),
                    Ty::I64 => both!(i64),
                    Ty::F64 => both!(f64),
                    Ty::Str => get_text!(String),
                    Ty::Date => get!(NaiveDate),
                    Ty::DateTime(_) | Ty::DateTime64(..) => get!(DateTime<Tz>),
                    Ty::Dec(..) => get!(Decimal),
                    Ty::Nullable(t) if **t == Ty::U32 => get!(Option<u32>),
                    Ty::Array(t) if **t == Ty::U32 => get!(Vec<u32>),
                    _ => {}
                },
            }
            // asked for something else: an error, not other values
            let t = core(&col.ty);
            let ok = |x: &[Ty]| x.contains(t);
            match (pick >> 32) % 32 {
                0 if !ok(&[Ty::U8]) => wrong!(u8),
                1 if !ok(&[Ty::U16]) => wrong!(u16),
                2 if !ok(&[Ty::U32]) => wrong!(u32),
                3 if !ok(&[Ty::I64]) => wrong!(i64),
                4 if !ok(&[Ty::F64]) => wrong!(f64),
                5 if !ok(&[Ty::Bool]) => wrong!(bool),
                6 if !matches!(t, Ty::Str | Ty::Fixed(_)) => wrong!(&[u8]),
                7 if !ok(&[Ty::Date]) => wrong!(NaiveDate),
                8 if !matches!(t, Ty::DateTime(_) | Ty::DateTime64(..)) => wrong!(DateTime<Tz>),
                9 if !ok(&[Ty::V4]) => wrong!(Ipv4Addr),
                10 if !ok(&[Ty::V6]) => wrong!(Ipv6Addr),
                11 if !ok(&[Ty::Uuid]) => wrong!(uuid::Uuid),
                12 if !matches!(t, Ty::Dec(..)) => wrong!(Decimal),
                13 if !matches!(t, Ty::Nullable(_)) => wrong!(Option<u32>),
                14 if !matches!(t, Ty::Array(_)) => wrong!(Vec<u32>),
                15 if !matches!(t, Ty::Map(..)) => wrong!(HashMap<u32, u32>),
                16 if !ok(&[Ty::Array(Box::new(Ty::I64))]) => wrong!(Vec<i64>),
                17 if matches!(t, Ty::Nullable(_)) && !ok(&[Ty::Nullable(Box::new(Ty::U32))]) => {
                    if column.iter::<Option<u32>>().is_ok() {
                        mismatch(format!("{sql:?}: column {:?} of type {} can be iterated as Option<u32>", col.name, col.ty.name()));
                    }
                }
                _ => {}
            }
        }
    };
}
typed!(typed_simple, Simple);
typed!(typed_complex, Complex);

macro_rules! check_block {
    ($fname:ident, $k:ty, $typed:ident) => {
        fn $fname(s: &Script, b: &Block<$k>, first: usize) -> bool {
            if b.column_count() != s.cols.len() {
                mismatch(format!("{:?}: {} columns, the server sent {}", s.sql, b.column_count(), s.cols.len()));
                return false;
            }
            if first + b.row_count() > s.total_rows() {
                mismatch(format!("{:?}: at least {} rows, the server sent {}", s.sql, first + b.row_count(), s.total_rows()));
                return false;
            }
            for (c, col) in s.cols.iter().enumerate() {
                let k = &b.columns()[c];
                if !check_type(&s.sql, c, k.name(), &k.sql_type().to_string(), col) {
                    return false;
                }
                for r in 0..b.row_count() {
                    if !check_cell(&s.sql, first + r, col, b.get::<Cv, _>(r, c)) {
                        return false;
                    }
                }
                if b.row_count() > 0 {
                    if !check_cell(&s.sql, first, col, b.get::<Cv, _>(0, col.name.as_str())) {
                        return false;
                    }
                    let by_name = b.get::<Owned, _>(0, c).map(|o| Cv { v: o.0, tz: vec![] });
                    if !check_cell(&s.sql, first, col, by_name) {
                        return false;
                    }
                    $typed(&s.sql, b, c, col, first);
                }
                match b.get_column(col.name.as_str()) {
                    Ok(k) if k.name() == col.name => {}
                    _ => mismatch(format!("{:?}: get_column({:?}) does not find the column", s.sql, col.name)),
                }
            }
            let mut n = 0;
            for row in b.rows() {
                if row.len() != s.cols.len() || row.is_empty() != s.cols.is_empty() {
                    mismatch(format!("{:?}: row {} of rows() has {} columns, the server sent {}", s.sql, first + n, row.len(), s.cols.len()));
                    return false;
                }
                for (c, col) in s.cols.iter().enumerate() {
                    let name = row.name(c).unwrap_or("");
                    if name != col.name || !check_cell(&s.sql, first + n, col, row.get::<Cv, _>(c)) {
                        mismatch(format!("{:?}: row {} of rows() differs in column {c}, called {name:?}", s.sql, first + n));
                        return false;
                    }
                }
                n += 1;
            }
            if n != b.row_count() {
                mismatch(format!("{:?}: rows() gives {n} rows, the block has {}", s.sql, b.row_count()));
                return false;
            }
            // printing what was received never fails
            let _ = format!("{b:?}");
            true
        }
    };
}
check_block!(check_simple, Simple, typed_simple);
check_block!(check_complex, Complex, typed_complex);

// ---- building blocks ----

fn raw_bytes(v: &Val) -> Vec<u8> {
    match v {
        Val::Bytes(b) => b.clone(),
        _ => panic!("harness: {v:?} is not a string"),
    }
}
/// without trailing zeros: what a shorter string is padded with
fn cut_bytes(v: &Val) -> Vec<u8> {
    let mut b = raw_bytes(v);
    while b.last() == Some(&0) {
        b.pop();
    }
    b
}
fn as_string(v: &Val) -> String {
    String::from_utf8(cut_bytes(v)).unwrap()
}
fn raw_string(v: &Val) -> String {
    String::from_utf8(raw_bytes(v)).unwrap()
}
fn as_date(v: &Val) -> NaiveDate {
    match v {
        Val::Date(d) => NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(*d as i64),
        _ => panic!("harness: {v:?} is not a date"),
    }
}
fn src_tz(ty: &Ty) -> Tz {
    match ty {
        Ty::DateTime(Some(z)) | Ty::DateTime64(_, Some(z)) => z.parse().unwrap(),
        Ty::Nullable(t) | Ty::Array(t) => src_tz(t),
        _ => Tz::UTC,
    }
}
fn as_dt(v: &Val, tz: Tz) -> DateTime<Tz> {
    match v {
        Val::DateTime(t) => tz.timestamp_opt(*t as i64, 0).unwrap(),
        Val::DateTime64(x, p) => {
            let scale = 10i64.pow(*p);
            tz.timestamp_opt(x.div_euclid(scale), (x.rem_euclid(scale) * 10i64.pow(9 - *p)) as u32).unwrap()
        }
        _ => panic!("harness: {v:?} is not a time"),
    }
}
fn arr(v: &Val) -> &Vec<Val> {
    match v {
        Val::Array(x) => x,
        _ => panic!("harness: {v:?} is not an array"),
    }
}

/// What the server should store for a given value.
pub fn convert(v: &Val, dst: &Ty) -> Val {
    match (v, dst) {
        (Val::Null, _) => Val::Null,
        (v, Ty::Nullable(t)) | (v, Ty::Low(t)) | (v, Ty::Agg(_, t)) => convert(v, t),
        (Val::Array(xs), Ty::Array(t)) => Val::Array(xs.iter().map(|x| convert(x, t)).collect()),
        (Val::Array(xs), Ty::Str) => Val::Bytes(xs.iter().map(|x| if let Val::U8(b) = x { *b } else { 0 }).collect()),
        (Val::Array(xs), Ty::Fixed(n)) => {
            let mut b: Vec<u8> = xs.iter().map(|x| if let Val::U8(b) = x { *b } else { 0 }).collect();
            b.resize(*n, 0);
            Val::Bytes(b)
        }
        (Val::Dec(x, s), Ty::Dec(_, s2)) => Val::Dec(x * 10i64.pow((*s2 - *s) as u32), *s2),
        (Val::DateTime(t), Ty::DateTime64(p, _)) => Val::DateTime64(*t as i64 * 10i64.pow(*p), *p),
        (Val::DateTime64(x, p0), Ty::DateTime64(p, _)) => Val::DateTime64(x * 10i64.pow(p - p0), *p),
        (Val::Map(m), Ty::Map(_, vt)) => Val::Map(m.iter().map(|(k, v)| (k.clone(), convert(v, vt))).collect()),
        (Val::Bytes(b), Ty::V4) => {
            let ip: Ipv4Addr = String::from_utf8(b.clone()).unwrap().parse().unwrap();
            Val::V4(u32::from(ip))
        }
        (Val::Bytes(b), Ty::V6) => {
            let ip: Ipv6Addr = String::from_utf8(b.clone()).unwrap().parse().unwrap();
            Val::V6(ip.octets())
        }
        (v, _) => v.clone(),
    }
}

macro_rules! un {
    ($v:expr, $k:ident) => {
        match $v {
            Val::$k(x) => *x,
            other => panic!("harness: {other:?} is not a {}", stringify!($k)),
        }
    };
}

fn add_column(b: Block, col: &Col, dst: &Ty, rows: usize) -> Block {
    let vals: Vec<Val> = (0..rows).map(|r| col.ty.value(col.seed, r)).collect();
    let name = col.name.as_str();
    macro_rules! num {
        ($k:ident) => {
            b.column(name, vals.iter().map(|v| un!(v, $k)).collect::<Vec<_>>())
        };
    }
    macro_rules! onum {
        ($k:ident) => {
            b.column(name, vals.iter().map(|v| if *v == Val::Null { None } else { Some(un!(v, $k)) }).collect::<Vec<_>>())
        };
    }
    macro_rules! anum {
        ($k:ident) => {
            b.column(name, vals.iter().map(|v| arr(v).iter().map(|x| un!(x, $k)).collect::<Vec<_>>()).collect::<Vec<_>>())
        };
    }
    macro_rules! o {
        ($f:expr) => {
            b.column(name, vals.iter().map(|v| if *v == Val::Null { None } else { Some($f(v)) }).collect::<Vec<_>>())
        };
    }
    macro_rules! each {
        ($f:expr) => {
            b.column(name, vals.iter().map(|v| $f(v)).collect::<Vec<_>>())
        };
    }
    macro_rules! aeach {
        ($f:expr) => {
            b.column(name, vals.iter().map(|v| arr(v).iter().map(|x| $f(x)).collect::<Vec<_>>()).collect::<Vec<_>>())
        };
    }
    let v4 = |v: &Val| Ipv4Addr::from(un!(v, V4));
    let v6 = |v: &Val| Ipv6Addr::from(un!(v, V6));
    let uu = |v: &Val| uuid::Uuid::from_bytes(un!(v, Uuid));
    let dec = |v: &Val| match v {
        Val::Dec(x, s) => Decimal::new(*x, *s),
        _ => panic!("harness"),
    };
    let e8 = |v: &Val| Enum8::of(un!(v, Enum8));
    let e16 = |v: &Val| Enum16::of(un!(v, Enum16));
    let f32v = |v: &Val| f32::from_bits(un!(v, F32));
    let f64v = |v: &Val| f64::from_bits(un!(v, F64));
    match &col.ty {
        Ty::Bool => num!(Bool),
        Ty::U8 => num!(U8),
        Ty::U16 => num!(U16),
        Ty::U32 => num!(U32),
        Ty::U64 => num!(U64),
        Ty::U128 => num!(U128),
        Ty::I8 => num!(I8),
        Ty::I16 => num!(I16),
        Ty::I32 => num!(I32),
        Ty::I64 => num!(I64),
        Ty::I128 => num!(I128),
        Ty::F32 => each!(f32v),
        Ty::F64 => each!(f64v),
        Ty::Str | Ty::Fixed(_) => {
            // a shorter string is padded
            let full = matches!(col.ty, Ty::Str) || mix(col.seed) % 3 == 0;
            let s: Vec<Vec<u8>> = vals.iter().map(|v| if full { raw_bytes(v) } else { cut_bytes(v) }).collect();
            let utf8 = vals.iter().all(text);
            match col.seed % 4 {
                0 if utf8 => b.column(name, s.into_iter().map(|x| String::from_utf8(x).unwrap()).collect::<Vec<_>>()),
                1 if utf8 => b.column(name, s.iter().map(|x| std::str::from_utf8(x).unwrap()).collect::<Vec<&str>>()),
                // bytes
                2 if !matches!(dst, Ty::Low(_)) => b.column(name, s),
                _ => b.column(name, s.iter().map(|x| &x[..]).collect::<Vec<&[u8]>>()),
            }
        }
        Ty::Date => each!(as_date),
        Ty::DateTime(_) | Ty::DateTime64(..) => {
            let tz = src_tz(&col.ty);
            each!(|v: &Val| as_dt(v, tz))
        }
        Ty::V4 if col.seed % 3 == 0 => each!(|v: &Val| v4(v).to_string()),
        Ty::V6 if col.seed % 3 == 0 => each!(|v: &Val| v6(v).to_string()),
        Ty::V4 => each!(v4),
        Ty::V6 => each!(v6),
        Ty::Uuid => each!(uu),
        Ty::Dec(..) => each!(dec),
        Ty::Enum8(_) => each!(e8),
        Ty::Enum16(_) => each!(e16),
        Ty::Nullable(t) => match &**t {
            Ty::Bool => onum!(Bool),
            Ty::U128 => onum!(U128),
            Ty::I128 => onum!(I128),
            Ty::U8 => onum!(U8),
            Ty::U16 => onum!(U16),
            Ty::U32 => onum!(U32),
            Ty::U64 => onum!(U64),
            Ty::I8 => onum!(I8),
            Ty::I16 => onum!(I16),
            Ty::I32 => onum!(I32),
            Ty::I64 => onum!(I64),
            Ty::F32 => o!(f32v),
            Ty::F64 => o!(f64v),
            Ty::Str => match col.seed % 3 {
                0 => o!(raw_string),
                1 => {
                    let s: Vec<Option<String>> = vals.iter().map(|v| if *v == Val::Null { None } else { Some(raw_string(v)) }).collect();
                    b.column(name, s.iter().map(|x| x.as_deref()).collect::<Vec<Option<&str>>>())
                }
                _ => o!(|v: &Val| raw_string(v).into_bytes()),
            },
            Ty::Fixed(_) => o!(as_string),
            Ty::Date => o!(as_date),
            Ty::DateTime(_) | Ty::DateTime64(..) => {
                let tz = src_tz(t);
                o!(|v: &Val| as_dt(v, tz))
            }
            Ty::V4 => o!(v4),
            Ty::V6 => o!(v6),
            Ty::Uuid => o!(uu),
            Ty::Dec(..) => o!(dec),
            Ty::Enum8(_) => o!(e8),
            Ty::Enum16(_) => o!(e16),
            t => panic!("harness: no source for Nullable {t:?}"),
        },
        Ty::Array(t) => match &**t {
            Ty::Bool => anum!(Bool),
            Ty::U128 => anum!(U128),
            Ty::I128 => anum!(I128),
            Ty::U8 => anum!(U8),
            Ty::U16 => anum!(U16),
            Ty::U32 => anum!(U32),
            Ty::U64 => anum!(U64),
            Ty::I8 => anum!(I8),
            Ty::I16 => anum!(I16),
            Ty::I32 => anum!(I32),
            Ty::I64 => anum!(I64),
            Ty::F32 => aeach!(f32v),
            Ty::F64 => aeach!(f64v),
            Ty::Str if col.seed % 2 == 0 => {
                let s: Vec<Vec<String>> = vals.iter().map(|v| arr(v).iter().map(raw_string).collect()).collect();
                b.column(name, s.iter().map(|v| v.iter().map(|x| x.as_str()).collect()).collect::<Vec<Vec<&str>>>())
            }
            Ty::Str => aeach!(raw_string),
            Ty::Date => aeach!(as_date),
            Ty::DateTime(_) | Ty::DateTime64(..) => {
                let tz = src_tz(t);
                aeach!(|v: &Val| as_dt(v, tz))
            }
            Ty::Enum8(_) => aeach!(e8),
            Ty::Enum16(_) => aeach!(e16),
            t => panic!("harness: no source for Array {t:?}"),
        },
        Ty::Map(k, v) => {
            macro_rules! map {
                ($kf:expr, $vk:ident) => {
                    b.column(
                        name,
                        vals.iter()
                            .map(|m| match m {
                                Val::Map(m) => m.iter().map(|(k, v)| ($kf(k), un!(v, $vk))).collect::<HashMap<_, _>>(),
                                _ => panic!("harness"),
                            })
                            .collect::<Vec<_>>(),
                    )
                };
            }
            match (&**k, &**v) {
                (Ty::Str, Ty::U8) => map!(raw_string, U8),
                (Ty::Str, Ty::U64) => map!(raw_string, U64),
                (Ty::Str, Ty::I32) => map!(raw_string, I32),
                (Ty::U32, Ty::U64) => map!(|k: &Val| un!(k, U32), U64),
                (Ty::I64, Ty::I16) => map!(|k: &Val| un!(k, I64), I16),
                (Ty::U8, Ty::U8) => map!(|k: &Val| un!(k, U8), U8),
                x => panic!("harness: no source for map {x:?}"),
            }
        }
        t => panic!("harness: no source for {t:?}"),
    }
}

/// Types that can also be pushed row by row.
pub fn pushable(t: &Ty) -> bool {
    match t {
        Ty::Nullable(t) | Ty::Array(t) => pushable(t) && !matches!(**t, Ty::Fixed(_)),
        Ty::Low(_) | Ty::Agg(..) => false,
        _ => true,
    }
}

fn sql(t: &Ty) -> SqlType {
    use clickhouse_rs::types::DateTimeType;
    match t {
        Ty::Bool => SqlType::Bool,
        Ty::U8 => SqlType::UInt8,
        Ty::U16 => SqlType::UInt16,
        Ty::U32 => SqlType::UInt32,
        Ty::U64 => SqlType::UInt64,
        Ty::U128 => SqlType::UInt128,
        Ty::I8 => SqlType::Int8,
        Ty::I16 => SqlType::Int16,
        Ty::I32 => SqlType::Int32,
        Ty::I64 => SqlType::Int64,
        Ty::I128 => SqlType::Int128,
        Ty::F32 => SqlType::Float32,
        Ty::F64 => SqlType::Float64,
        Ty::Str | Ty::Fixed(_) => SqlType::String,
        Ty::Date => SqlType::Date,
        Ty::DateTime(_) => SqlType::DateTime(DateTimeType::DateTime32),
        Ty::DateTime64(p, _) => SqlType::DateTime(DateTimeType::DateTime64(*p, src_tz(t))),
        Ty::V4 => SqlType::Ipv4,
        Ty::V6 => SqlType::Ipv6,
        Ty::Uuid => SqlType::Uuid,
        Ty::Dec(p, s) => SqlType::Decimal(*p, *s),
        Ty::Enum8(l) => SqlType::Enum8(l.iter().map(|(n, v)| (n.clone(), *v as i8)).collect()),
        Ty::Enum16(l) => SqlType::Enum16(l.clone()),
        Ty::Nullable(t) => SqlType::Nullable(sql(t).into()),
        Ty::Array(t) => SqlType::Array(sql(t).into()),
        Ty::Map(k, v) => SqlType::Map(sql(k).into(), sql(v).into()),
        Ty::Low(_) | Ty::Agg(..) => panic!("harness: no SqlType for {t:?}"),
    }
}

/// Several ways to say the same are picked by `how`.
fn to_value(v: &Val, ty: &Ty, how: u64) -> Value {
    match (v, ty) {
        (v, Ty::Nullable(t)) if how % 2 == 0 => {
            macro_rules! opt {
                ($k:ident) => {
                    return Value::from(if *v == Val::Null { None } else { Some(un!(v, $k)) })
                };
            }
            match &**t {
                Ty::U8 => opt!(U8),
                Ty::U32 => opt!(U32),
                Ty::I64 => opt!(I64),
                Ty::I128 => opt!(I128),
                Ty::Bool => opt!(Bool),
                Ty::Str => return Value::from(if *v == Val::Null { None } else { Some(raw_string(v)) }),
                Ty::Date => return Value::from(if *v == Val::Null { None } else { Some(as_date(v)) }),
                _ => return to_value(v, ty, how + 1),
            }
        }
        (Val::Null, Ty::Nullable(t)) => Value::Nullable(Either::Left(sql(t).into())),
        (v, Ty::Nullable(t)) => Value::Nullable(Either::Right(Box::new(to_value(v, t, how)))),
        (Val::Array(xs), Ty::Array(t)) => {
            macro_rules! list {
                ($k:ident) => {
                    return Value::from(xs.iter().map(|x| un!(x, $k)).collect::<Vec<_>>())
                };
            }
            if how % 2 == 0 {
                match &**t {
                    Ty::U16 => list!(U16),
                    Ty::U64 => list!(U64),
                    Ty::I32 => list!(I32),
                    Ty::I128 => list!(I128),
                    Ty::Str => return Value::from(xs.iter().map(raw_string).collect::<Vec<String>>()),
                    _ => {}
                }
            }
            Value::Array(sql(t).into(), Arc::new(xs.iter().map(|x| to_value(x, t, how + 1)).collect()))
        }
        (Val::Map(m), Ty::Map(k, t)) => {
            if how % 2 == 0 {
                match (&**k, &**t) {
                    (Ty::Str, Ty::U8) => {
                        return Value::from(m.iter().map(|(k, v)| (raw_string(k), un!(v, U8))).collect::<HashMap<_, _>>())
                    }
                    (Ty::U32, Ty::U64) => {
                        return Value::from(m.iter().map(|(k, v)| (un!(k, U32), un!(v, U64))).collect::<HashMap<_, _>>())
                    }
                    _ => {}
                }
            }
            Value::Map(
                sql(k).into(),
                sql(t).into(),
                Arc::new(m.iter().map(|(x, y)| (to_value(x, k, how + 1), to_value(y, t, how + 1))).collect()),
            )
        }
        (Val::Bool(x), _) => (*x).into(),
        (Val::U8(x), _) => (*x).into(),
        (Val::U16(x), _) => (*x).into(),
        (Val::U32(x), _) => (*x).into(),
        (Val::U64(x), _) => (*x).into(),
        (Val::U128(x), _) => (*x).into(),
        (Val::I8(x), _) => (*x).into(),
        (Val::I16(x), _) => (*x).into(),
        (Val::I32(x), _) => (*x).into(),
        (Val::I64(x), _) => (*x).into(),
        (Val::I128(x), _) => (*x).into(),
        (Val::F32(x), _) => f32::from_bits(*x).into(),
        (Val::F64(x), _) => f64::from_bits(*x).into(),
        (Val::Bytes(_), Ty::Fixed(_)) => Value::String(Arc::new(cut_bytes(v))),
        (Val::Bytes(b), _) if !text(v) => {
            if how % 2 == 0 {
                Value::from(&b[..])
            } else {
                Value::from(b.clone())
            }
        }
        (Val::Bytes(_), _) => {
            if how % 2 == 0 {
                raw_string(v).into()
            } else {
                raw_string(v).as_str().into()
            }
        }
        (Val::Date(_), _) => as_date(v).into(),
        (Val::DateTime(t), _) => match how % 3 {
            0 => as_dt(v, src_tz(ty)).into(),
            1 if src_tz(ty) == Tz::UTC => Value::from(DateTime::<chrono::Utc>::from_timestamp(*t as i64, 0).unwrap()),
            _ => Value::DateTime(*t, src_tz(ty)),
        },
        (Val::DateTime64(x, p), _) => Value::DateTime64(*x, (*p, src_tz(ty))),
        (Val::V4(x), _) => Value::Ipv4(x.to_le_bytes()),
        (Val::V6(x), _) => Value::Ipv6(*x),
        (Val::Uuid(x), _) => uuid::Uuid::from_bytes(*x).into(),
        (Val::Dec(x, s), _) => Decimal::new(*x, *s).into(),
        (Val::Enum8(x), Ty::Enum8(l)) => match how % 2 {
            0 => Enum8::of(*x).into(),
            _ => Value::Enum8(l.iter().map(|(n, v)| (n.clone(), *v as i8)).collect(), Enum8::of(*x)),
        },
        (Val::Enum16(x), Ty::Enum16(l)) => match how % 2 {
            0 => Enum16::of(*x).into(),
            _ => Value::Enum16(l.clone(), Enum16::of(*x)),
        },
        (v, t) => panic!("harness: no value for {v:?} of {t:?}"),
    }
}

fn push_row(b: &mut Block, row: Vec<(String, Value)>, how: u64) -> Result<(), Error> {
    use clickhouse_rs::types::RNil;
    if how % 2 == 0 {
        return b.push(row);
    }
    // the last to be put becomes the first column
    let n = row.len();
    let mut i = row.into_iter().rev().map(|(k, v)| (std::borrow::Cow::from(k), v));
    let mut next = || i.next().unwrap();
    macro_rules! put {
        ($b:expr) => {{
            let b = $b;
            let (k, v) = next();
            b.put(k, v)
        }};
    }
    match n {
        0 => Ok(()),
        1 => b.push(put!(RNil)),
        2 => b.push(put!(put!(RNil))),
        3 => b.push(put!(put!(put!(RNil)))),
        4 => b.push(put!(put!(put!(put!(RNil))))),
        n => panic!("harness: {n} columns"),
    }
}

pub fn build_block(ins: &Ins) -> Block {
    let mut b = Block::new();
    if ins.by_row && ins.rows > 0 {
        let how = mix(ins.cols[0].src.seed);
        let mut kept: Option<(usize, Block)> = None;
        for r in 0..ins.rows {
            if ins.clone_at == Some(r) {
                kept = Some((r, b.clone()));
            }
            let row: Vec<(String, Value)> = ins
                .cols
                .iter()
                .map(|c| (c.src.name.clone(), to_value(&c.src.ty.value(c.src.seed, r), &c.src.ty, mix(c.src.seed) >> 7)))
                .collect();
            if let Err(e) = push_row(&mut b, row, how) {
                mismatch(format!("row {r} cannot be pushed: {e}"));
            }
        }
        if let Some((r, k)) = kept {
            if k.row_count() != r || k.columns().iter().enumerate().any(|(c, _)| (0..r).any(|i| k.get::<Cv, _>(i, c).ok().map(|x| x.v) != b.get::<Cv, _>(i, c).ok().map(|x| x.v))) {
                mismatch(format!("a clone of a block made before row {r} has {} rows after further rows were pushed to the original, or other values", k.row_count()));
            }
            // pushing to either does not change the other
            if how % 4 >= 2 {
                let mut k = k;
                for r in r..ins.rows {
                    let row: Vec<(String, Value)> = ins
                        .cols
                        .iter()
                        .map(|c| (c.src.name.clone(), to_value(&c.src.ty.value(c.src.seed, r), &c.src.ty, mix(c.src.seed) >> 7)))
                        .collect();
                    if let Err(e) = push_row(&mut k, row, how) {
                        mismatch(format!("row {r} cannot be pushed to a clone: {e}"));
                    }
                }
                return k;
            }
        }
        return b;
    }
    for c in &ins.cols {
        b = add_column(b, &c.src, &c.dst, ins.rows);
    }
    b
}

// ---- running operations ----

/// Drops the inner future after some time or number of polls.
struct Limit<'a, T> {
    fut: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    polls: Option<u32>,
}
impl<'a, T> Future for Limit<'a, T> {
    type Output = Option<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        if let Poll::Ready(v) = self.fut.as_mut().unwrap().as_mut().poll(cx) {
            return Poll::Ready(Some(v));
        }
        let mut stop = false;
        if let Some(n) = &mut self.polls {
            if *n <= 1 {
                stop = true;
            } else {
                *n -= 1;
            }
        }
        if let Some(s) = &mut self.sleep {
            stop |= s.as_mut().poll(cx).is_ready();
        }
        if stop {
            self.fut = None;
            return Poll::Ready(None);
        }
        Poll::Pending
    }
}
fn limit<'a, T>(c: Cancel, f: impl Future<Output = T> + 'a) -> Limit<'a, T> {
    Limit {
        fut: Some(Box::pin(f)),
        sleep: match c {
            Cancel::Ms(ms) => Some(Box::pin(tokio::time::sleep(Duration::from_millis(ms)))),
            // whoever gives up after some progress gives up without any, too, in the end
            Cancel::Polls(_) => Some(Box::pin(tokio::time::sleep(Duration::from_secs(20)))),
            Cancel::No => None,
        },
        polls: match c {
            Cancel::Polls(n) => Some(n),
            _ => None,
        },
    }
}

#[derive(Clone)]
pub struct Ctx {
    pub plan: Arc<Plan>,
    pub pool: Option<Pool>,
    pub opts: Arc<Source>,
}

fn query(sql: &str, qid: &Option<String>) -> Query {
    let q = Query::new(sql);
    match qid {
        Some(id) => q.id(id),
        None => q,
    }
}

fn rec(i: usize, f: impl FnOnce(&mut Rec)) {
    with(|w| f(&mut w.hist[i]));
}

async fn get_handle(ctx: &Ctx) -> Result<ClientHandle, Error> {
    match &ctx.pool {
        Some(p) => p.get_handle().await,
        None => {
            let o: Options = match &*ctx.opts {
                Source::Url(u) => u.parse::<Options>()?,
                Source::Opt(o) => (**o).clone(),
            };
            #[allow(deprecated)]
            clickhouse_rs::Client::connect(o).await
        }
    }
}

async fn run_query(
    h: &mut ClientHandle,
    s: &Script,
    mode: Mode,
    take: Option<usize>,
    pause: Option<(usize, u64)>,
    i: usize,
    stash: &mut Vec<Block>,
) -> Result<(), Error> {
    stash.clear();
    match mode {
        Mode::FetchAll => {
            let b = h.query(query(&s.sql, &s.qid)).fetch_all().await?;
            let t = world::now();
            rec(i, |r| {
                r.rows = b.row_count();
                r.items.push((r.start, t, b.row_count()));
            });
            if b.column_count() > 0 || b.row_count() > 0 || s.cols_sent() {
                check_complex(s, &b, 0);
            }
            Ok(())
        }
        Mode::Blocks => {
            let mut st = h.query(query(&s.sql, &s.qid)).stream_blocks();
            let (mut n, mut row) = (0, 0);
            loop {
                if take == Some(n) {
                    rec(i, |r| r.stopped_early = true);
                    return Ok(());
                }
                if let Some((k, ms)) = pause {
                    if k == n {
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                    }
                }
                let asked = world::now();
                match st.next().await {
                    None => return Ok(()),
                    Some(Err(e)) => return Err(e),
                    Some(Ok(b)) => {
                        if b.column_count() > 0 && !check_simple(s, &b, row) {
                            return Ok(());
                        }
                        n += 1;
                        row += b.row_count();
                        if b.row_count() > 0 {
                            stash.push(b);
                        }
                        let t = world::now();
                        rec(i, |r| {
                            r.rows = row;
                            r.items.push((asked, t, row));
                        });
                    }
                }
            }
        }
        Mode::Rows => {
            let mut st = h.query(query(&s.sql, &s.qid)).stream();
            let mut row = 0;
            loop {
                if take == Some(row) {
                    rec(i, |r| r.stopped_early = true);
                    return Ok(());
                }
                if let Some((k, ms)) = pause {
                    if k == row {
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                    }
                }
                let asked = world::now();
                match st.next().await {
                    None => return Ok(()),
                    Some(Err(e)) => return Err(e),
                    Some(Ok(r)) => {
                        if r.len() != s.cols.len() || row >= s.total_rows() {
                            mismatch(format!(
                                "{:?}: row {row} has {} columns, the server sent {} rows of {} columns",
                                s.sql,
                                r.len(),
                                s.total_rows(),
                                s.cols.len()
                            ));
                            return Ok(());
                        }
                        for (c, col) in s.cols.iter().enumerate() {
                            let name = r.name(c).map(|n| n.to_string()).unwrap_or_else(|e| format!("error: {e}"));
                            let ty = r.sql_type(c).map(|t| t.to_string().to_string()).unwrap_or_else(|e| format!("error: {e}"));
                            if !check_type(&s.sql, c, &name, &ty, col) || !check_cell(&s.sql, row, col, r.get::<Cv, _>(c)) {
                                return Ok(());
                            }
                        }
                        row += 1;
                        let t = world::now();
                        rec(i, |r| {
                            r.rows = row;
                            r.items.push((asked, t, row));
                        });
                    }
                }
            }
        }
    }
}

impl Script {
    pub fn cols_sent(&self) -> bool {
        self.steps.iter().any(|s| matches!(s, Step::Header | Step::Rows(_)))
    }
}

/// (new, idle, ongoing) as reported by the pool
pub fn pool_counts(p: &Pool) -> Option<(usize, usize, usize)> {
    let s = format!("{p:?}");
    let num = |key: &str| -> Option<usize> {
        let at = s.find(key)? + key.len();
        s[at..].trim_start_matches(|c: char| !c.is_ascii_digit()).chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
    };
    Some((num("new connections count")?, num("idle connections count")?, num("ongoing connections count")?))
}

async fn probe(ctx: &Ctx) {
    let Some(pool) = ctx.pool.clone() else { return };
    // an abandoned attempt may be left over: it is completed (or fails) first
    if pool_counts(&pool).map_or(true, |c| c.0 > 0) {
        let _ = pool.get_handle().await;
    }
    with(|w| w.calm = true);
    let n = ctx.plan.cfg.max;
    let gets: Vec<_> = (0..n).map(|_| pool.get_handle()).collect();
    let got = futures_util::future::join_all(gets).await;
    let mut ok = vec![];
    for g in got {
        match g {
            Ok(h) => ok.push(h),
            Err(e) => with(|w| w.violate("capacity", format!("with the pool at rest and all servers up, one of {n} simultaneous get_handle calls failed: {e}"))),
        }
    }
    if let Some((_, idle, ongoing)) = pool_counts(&pool) {
        if ok.len() == n && ongoing != n {
            with(|w| w.violate("rest", format!("{n} handles are lent out, the pool counts {ongoing} (idle {idle})")));
        }
    }
    with(|w| w.stat("probes"));
    drop(ok);
    with(|w| w.calm = false);
}

fn rest(ctx: &Ctx) {
    with(|w| w.stat("rest_checks"));
    let open = with(|w| w.open_now);
    let Some(pool) = &ctx.pool else {
        if open != 0 {
            with(|w| w.violate("rest", format!("{open} sockets are open, all handles have been dropped")));
        }
        return;
    };
    let Some((new, idle, ongoing)) = pool_counts(pool) else { return };
    let cfg = &ctx.plan.cfg;
    let addrs = cfg.hosts.iter().map(|h| h.addrs.len()).max().unwrap();
    if ongoing != 0 {
        with(|w| w.violate("rest", format!("all handles have been dropped, the pool counts {ongoing} connections in use")));
    }
    if idle > cfg.min {
        with(|w| w.violate("rest", format!("the pool keeps {idle} idle connections, pool_min is {}", cfg.min)));
    }
    if open < idle || open > idle + new * addrs {
        with(|w| w.violate("rest", format!("{open} sockets are open, the pool has {idle} idle connections and {new} attempts")));
    }
}

pub async fn run_task(t: usize, ctx: Ctx) {
    let plan = ctx.plan.clone();
    let mut handle: Option<ClientHandle> = None;
    let mut handle_id: Option<usize> = None;
    let mut tainted = false;
    let mut prev: Option<Outcome> = None;
    // blocks received, by script
    let mut stash: HashMap<usize, Vec<Block>> = HashMap::new();
    for (k, op) in plan.tasks[t].ops.iter().enumerate() {
        match &op.kind {
            OpKind::Sleep(ms) => {
                tokio::time::sleep(Duration::from_millis(*ms)).await;
                continue;
            }
            OpKind::Probe => {
                give_back(t, &mut handle, handle_id);
                probe(&ctx).await;
                continue;
            }
            OpKind::Rest => {
                give_back(t, &mut handle, handle_id);
                rest(&ctx);
                continue;
            }
            OpKind::Drop | OpKind::Get => {
                with(|w| w.trace(50, || format!("task {t} drops its handle")));
                give_back(t, &mut handle, handle_id);
                if op.kind == OpKind::Drop {
                    continue;
                }
            }
            _ => {}
        }
        let i = with(|w| {
            let (now, conns) = (w.now, w.conns.len());
            w.trace(51, || format!("task {t} op {k}: {:?}", op.kind));
            w.hist.push(Rec {
                task: t,
                op: k,
                kind: op.kind.clone(),
                start: now,
                end: now,
                outcome: Outcome::Open,
                rows: 0,
                items: vec![],
                handle: handle_id,
                tainted,
                conns_before: conns,
                conns_after: usize::MAX,
                stopped_early: false,
                prev: prev.clone(),
            });
            w.hist.len() - 1
        });
        let skip = Cell::new(false);
        let r: Option<Result<(), Error>> = if op.kind == OpKind::Get {
            tainted = false;
            prev = None;
            handle_id = None;
            match limit(op.cancel, get_handle(&ctx)).await {
                Some(Ok(h)) => {
                    handle = Some(h);
                    handle_id = Some(i);
                    with(|w| w.lent.push((w.now, t, 1)));
                    Some(Ok(()))
                }
                Some(Err(e)) => Some(Err(e)),
                None => None,
            }
        } else {
            match handle.as_mut() {
                None => {
                    skip.set(true);
                    None
                }
                Some(h) => match &op.kind {
                    OpKind::Ping => {
                        let _ = format!("{h:?}");
                        limit(op.cancel, h.ping()).await
                    }
                    OpKind::Check => limit(op.cancel, h.check_connection()).await,
                    OpKind::Exec(s) => {
                        let s = &plan.scripts[*s];
                        limit(op.cancel, h.execute(query(&s.sql, &s.qid))).await
                    }
                    OpKind::Insert(n) => {
                        let ins = &plan.inserts[*n];
                        match &ins.from {
                            None => {
                                let block = build_block(ins);
                                limit(op.cancel, h.insert(query(&ins.table, &ins.qid), &block)).await
                            }
                            Some(f) => match stash.get(&f.script).and_then(|v| v.get(f.block)) {
                                None => {
                                    skip.set(true);
                                    None
                                }
                                Some(b) => {
                                    let mut block = b.clone();
                                    if f.columns {
                                        block = Block::new();
                                        for c in b.columns() {
                                            block = block.column(c.name(), c.clone());
                                        }
                                    }
                                    limit(op.cancel, h.insert(query(&ins.table, &ins.qid), &block)).await
                                }
                            },
                        }
                    }
                    OpKind::Query { script, mode, take, pause } => {
                        let st = stash.entry(*script).or_default();
                        limit(op.cancel, run_query(h, &plan.scripts[*script], *mode, *take, *pause, i, st)).await
                    }
                    _ => unreachable!(),
                },
            }
        };
        let outcome = match &r {
            _ if skip.get() => Outcome::Skipped,
            Some(Ok(())) => Outcome::Ok,
            Some(Err(e)) => Outcome::Err(classify(e), e.to_string()),
            None => Outcome::Cancelled,
        };
        if outcome == Outcome::Cancelled {
            with(|w| w.stat("fault_cancelled"));
        }
        if op.kind != OpKind::Get {
            if matches!(outcome, Outcome::Err(..) | Outcome::Cancelled) {
                tainted = true;
            }
            prev = Some(outcome.clone());
        }
        with(|w| {
            let now = w.now;
            let conns = w.conns.len();
            w.trace(52, || format!("task {t} op {k}: {outcome:?}"));
            let r = &mut w.hist[i];
            r.end = now;
            r.conns_after = conns;
            r.outcome = outcome;
            r.handle = handle_id;
        });
    }
    give_back(t, &mut handle, handle_id);
}

fn give_back(t: usize, handle: &mut Option<ClientHandle>, id: Option<usize>) {
    if let Some(h) = handle.take() {
        drop(h);
        with(|w| {
            w.lent.push((w.now, t, -1));
            // connections on which an operation failed do not go back to the pool
            // (after a timeout the rest of the reply is skipped before the next use)
            let kept = w
                .hist
                .iter()
                .filter(|r| r.handle == id && r.task == t)
                .filter(|r| matches!(&r.outcome, Outcome::Err(e, _) if *e != Er::Timeout))
                .filter_map(|r| crate::oracle::own(&r.kind).map(|what| (r, what)))
                .find_map(|(r, what)| {
                    let s = w.stmts.iter().find(|s| s.what == what && w.conns[s.conn].cli == Cli::Open)?;
                    Some((r.op, s.conn))
                });
            if let Some((op, conn)) = kept {
                w.violate("reuse", format!("task {t} op {op} failed on connection {conn}, which is kept open after its handle was dropped"));
            }
        });
    }
}

#[allow(clippy::type_complexity)]
pub fn make(plan: Arc<Plan>) -> (Vec<Pin<Box<dyn Future<Output = ()>>>>, Box<dyn FnOnce()>) {
    let src = source(&plan.cfg);
    let pool = if plan.cfg.pooled {
        Some(match &src {
            Source::Url(u) => Pool::new(u.as_str()),
            Source::Opt(o) => Pool::new((**o).clone()),
        })
    } else {
        None
    };
    let ctx = Ctx { plan: plan.clone(), pool: pool.clone(), opts: Arc::new(src) };
    let tasks = (0..plan.tasks.len())
        .map(|t| Box::pin(run_task(t, ctx.clone())) as Pin<Box<dyn Future<Output = ()>>>)
        .collect();
    (tasks, Box::new(move || drop(pool)))
}
