//! Seeded generators of plans, one family of scenarios per property.
use crate::plan::*;
use crate::rng::Rng;
use crate::ty::*;

pub const IDS: [&str; 15] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
];

const TZS: [&str; 6] = ["UTC", "Europe/Moscow", "America/New_York", "Asia/Tokyo", "Australia/Lord_Howe", "Asia/Kathmandu"];
const REVS: [u64; 18] = [
    54429, 54460, 54428, 54421, 54420, 54419, 54410, 54402, 54401, 54400, 54372, 54371, 54061, 54060, 54059, 54058, 54057, 54032,
];

fn quiet_net() -> Net {
    Net { frag: 0, jitter: 0, latency: 1, window: 1 << 20, short_reads: false, lossy_close: false }
}

fn wild_net(r: &mut Rng) -> Net {
    Net {
        frag: r.pick_c(&[0, 1, 1, 2, 2, 3]),
        jitter: r.pick_c(&[0, 0, 3, 20]),
        latency: r.pick_c(&[0, 1, 1, 5]),
        window: r.pick_c(&[1 << 20, 1 << 20, 4096, 700, 64]),
        short_reads: r.chance(400),
        lossy_close: r.chance(300),
    }
}

fn base_cfg(r: &mut Rng) -> Cfg {
    let max = r.range(1, 4) as usize;
    Cfg {
        workers: 1,
        preempt: 0,
        park: 0,
        park_ms: 1,
        spurious: r.pick_c(&[0, 0, 0, 30]),
        pooled: r.chance(800),
        via_url: r.chance(500),
        url_full: r.chance(500),
        min: r.range(0, max as u64) as usize,
        max,
        compression: r.chance(500),
        ping_before: r.chance(850),
        send_retries: r.range(1, 3) as usize,
        retry_ms: 100,
        ping_ms: 5_000,
        conn_ms: 5_000,
        query_ms: 600_000,
        insert_ms: Some(600_000),
        exec_ms: Some(600_000),
        user: "default".into(),
        pass: "".into(),
        db: "default".into(),
        settings: vec![],
        nodelay: true,
        hosts: vec![Host::new(0)],
        one_machine: false,
        chunk: 1_048_576,
        net: quiet_net(),
    }
}

fn threads(r: &mut Rng, cfg: &mut Cfg) {
    cfg.workers = r.pick_c(&[1, 2, 2, 3, 4]);
    cfg.preempt = r.pick_c(&[30, 100, 300, 500]);
    cfg.park = r.pick_c(&[0, 0, 50, 200]);
    cfg.park_ms = r.pick_c(&[1, 10, 60]);
    cfg.spurious = r.pick_c(&[0, 0, 30, 100]);
}

fn server(r: &mut Rng) -> Server {
    Server {
        revision: if r.chance(500) { 54429 } else { r.pick_c(&REVS) },
        tz: r.pick_c(&TZS).into(),
        name: "ClickHouse".into(),
        hello: vec![],
        pong: vec![],
        delay: r.pick_c(&[0, 0, 1, 7]),
        down: None,
    }
}

fn plan(id: &str, scenario: &str, seed: u64, cfg: Cfg, servers: Vec<Server>) -> Plan {
    Plan {
        property: id.into(),
        scenario: scenario.into(),
        seed,
        cfg,
        servers,
        scripts: vec![],
        inserts: vec![],
        tasks: vec![],
        faults: vec![],
        horizon: 3_600_000,
        expect: Expect::default(),
    }
}

// ---- types ----

fn enum_name(r: &mut Rng, prefix: char, i: usize) -> String {
    match r.below(10) {
        0 => format!("it's {i}"),
        1 => format!("a, b = {i}"),
        2 => format!("({i}) \\ ')"),
        3 => format!("имя{i}"),
        4 if i == 0 => String::new(),
        _ => format!("{prefix}{i}"),
    }
}
fn enum8(r: &mut Rng) -> Ty {
    let n = r.range(1, 4);
    let mut used = std::collections::BTreeSet::new();
    while (used.len() as u64) < n {
        used.insert(r.below(256) as u8 as i8);
    }
    Ty::Enum8(used.into_iter().enumerate().map(|(i, v)| (enum_name(r, 'e', i), v)).collect())
}
fn enum16(r: &mut Rng) -> Ty {
    let n = r.range(1, 4);
    let mut used = std::collections::BTreeSet::new();
    while (used.len() as u64) < n {
        used.insert(r.below(65536) as u16 as i16);
    }
    Ty::Enum16(used.into_iter().enumerate().map(|(i, v)| (enum_name(r, 'x', i), v)).collect())
}
fn tz(r: &mut Rng) -> String {
    r.pick_c(&TZS).into()
}
fn tz_opt(r: &mut Rng) -> Option<String> {
    if r.chance(500) {
        None
    } else {
        Some(r.pick_c(&TZS).into())
    }
}
fn dec(r: &mut Rng) -> Ty {
    if r.chance(500) {
        let p = r.range(1, 9) as u8;
        Ty::Dec(p, r.range(0, p as u64) as u8)
    } else {
        let p = r.range(10, 18) as u8;
        Ty::Dec(p, r.range(0, p as u64) as u8)
    }
}
fn num(r: &mut Rng) -> Ty {
    match r.below(13) {
        0 => Ty::Bool,
        1 => Ty::U8,
        2 => Ty::U16,
        3 => Ty::U32,
        4 => Ty::U64,
        5 => Ty::U128,
        6 => Ty::I8,
        7 => Ty::I16,
        8 => Ty::I32,
        9 => Ty::I64,
        10 => Ty::I128,
        11 => Ty::F32,
        _ => Ty::F64,
    }
}
fn scalar(r: &mut Rng) -> Ty {
    match r.below(20) {
        0..=5 => num(r),
        6..=8 => Ty::Str,
        9 | 10 => Ty::Fixed(r.range(1, 12) as usize),
        11 => Ty::Date,
        12 => Ty::DateTime(tz_opt(r)),
        13 => Ty::DateTime64(r.range(0, 9) as u32, tz_opt(r)),
        14 => Ty::V4,
        15 => Ty::V6,
        16 => Ty::Uuid,
        17 => dec(r),
        18 => enum8(r),
        _ => enum16(r),
    }
}
fn low_inner(r: &mut Rng) -> Ty {
    match r.below(6) {
        0..=2 => Ty::Str,
        3 => Ty::Fixed(r.range(1, 8) as usize),
        4 => Ty::Date,
        _ => r.pick(&[Ty::U16, Ty::U32, Ty::U64, Ty::I64, Ty::DateTime(None), Ty::DateTime(Some("Asia/Tokyo".into()))]).clone(),
    }
}
fn small_map() -> Ty {
    Ty::Map(Box::new(Ty::U16), Box::new(Ty::U32))
}
fn agg(r: &mut Rng) -> Ty {
    let (f, t) = match r.below(8) {
        0..=3 => {
            let t = match r.below(4) {
                0 => Ty::Nullable(Box::new(scalar(r))),
                1 => Ty::Low(Box::new(low_inner(r))),
                _ => scalar(r),
            };
            (r.pick_c(&["any", "anyLast", "min", "max", "argMin", "argMax"]), t)
        }
        4 | 5 => (r.pick_c(&["sum", "sumWithOverflow"]), r.pick(&[Ty::U64, Ty::I64, Ty::F64, Ty::U32, Ty::Dec(18, 4)]).clone()),
        6 => (r.pick_c(&["groupBitAnd", "groupBitOr", "groupBitXor"]), r.pick(&[Ty::U8, Ty::U16, Ty::U32, Ty::U64]).clone()),
        _ => match r.below(2) {
            0 => (r.pick_c(&["groupArrayArray", "groupUniqArrayArray"]), Ty::Array(Box::new(scalar(r)))),
            _ => (r.pick_c(&["sumMap", "minMap", "maxMap"]), small_map()),
        },
    };
    Ty::Agg(f.into(), Box::new(t))
}
fn any_type(r: &mut Rng) -> Ty {
    match r.below(20) {
        0..=9 => scalar(r),
        10..=12 => Ty::Nullable(Box::new(scalar(r))),
        13 | 14 => {
            let inner = match r.below(8) {
                0 => Ty::Array(Box::new(scalar(r))),
                1 => Ty::Nullable(Box::new(scalar(r))),
                2 => small_map(),
                _ => scalar(r),
            };
            Ty::Array(Box::new(inner))
        }
        15 | 16 => {
            let k = r.pick(&[Ty::Str, Ty::U8, Ty::U32, Ty::U64, Ty::I64, Ty::I16, Ty::Fixed(3)]).clone();
            let v = match r.below(10) {
                0 => Ty::Array(Box::new(Ty::U32)),
                1 => Ty::Str,
                2 => Ty::Nullable(Box::new(r.pick(&[Ty::I32, Ty::Date]).clone())),
                3 => num(r),
                4 => small_map(),
                5 => Ty::Array(Box::new(small_map())),
                _ => scalar(r),
            };
            Ty::Map(Box::new(k), Box::new(v))
        }
        17 | 18 => Ty::Low(Box::new(low_inner(r))),
        _ => agg(r),
    }
}

fn col_name(r: &mut Rng, i: usize) -> String {
    match r.below(6) {
        0 => format!("c{i}"),
        1 => format!("имя {i}"),
        2 => format!("{}", 100 + i),
        3 => format!("ns:attr.{i}"),
        _ => format!("column_{i}"),
    }
}

fn columns(r: &mut Rng, n: usize) -> Vec<Col> {
    (0..n).map(|i| Col { name: col_name(r, i), ty: any_type(r), seed: r.next() >> 2 }).collect()
}
fn long_strings(r: &mut Rng, cols: &mut [Col]) {
    for c in cols {
        if c.ty.can_grow() && r.chance(200) {
            c.seed |= LONG;
        }
        if c.ty.enumerable() && r.chance(300) {
            c.seed |= DISTINCT;
        }
    }
}
/// As many rows as there are numbers of a width, about.
fn round_number(r: &mut Rng) -> usize {
    (if r.chance(60) { 65_520 } else { 240 }) + r.below(32) as usize
}
fn small_columns(r: &mut Rng) -> Vec<Col> {
    let n = r.range(1, 2) as usize;
    let tys = [Ty::U64, Ty::Str, Ty::I32, Ty::Nullable(Box::new(Ty::U32)), Ty::Array(Box::new(Ty::U16))];
    let mut v = vec![Col { name: "id".into(), ty: Ty::U64, seed: r.next() >> 2 }];
    for i in 1..n {
        v.push(Col { name: format!("c{i}"), ty: r.pick(&tys).clone(), seed: r.next() >> 2 });
    }
    v
}

// ---- statements ----

fn sql(r: &mut Rng, id: usize) -> String {
    let pad = match r.below(6) {
        0 => "x".repeat(r.range(100, 400) as usize),
        1 => "ж'\"\\`\n\t0".into(),
        _ => String::new(),
    };
    let (head, tail) = match r.below(12) {
        0 => ("", " "),
        1 => ("", "\n"),
        2 => ("", ";"),
        3 => (" ", ""),
        4 => ("\n\t", "\r\n -- end\n\n"),
        5 => ("-- ?\n", " ; "),
        _ => ("", ""),
    };
    format!("{head}SELECT {id} /* {pad} */ FROM t{id}{tail}")
}

fn table(r: &mut Rng, id: usize) -> String {
    match r.below(12) {
        0 => format!("db.t{id}"),
        1 => format!("`a b`.`t{id}`"),
        2 => format!("FUNCTION null('x UInt8 -- {id}')"),
        3 => format!("таблица_{id}"),
        _ => format!("t{id}"),
    }
}

fn script(r: &mut Rng, id: usize, cols: Vec<Col>, steps: Vec<Step>) -> Script {
    Script {
        sql: sql(r, id),
        qid: match r.below(20) {
            0 | 1 => Some(format!("query-{id}")),
            2 => Some(format!("запрос '{id}'")),
            3 => Some(format!("{id}").repeat(200)),
            _ => None,
        },
        cols,
        steps,
        cut: None,
        flip: None,
        frame: r.pick_c(&[1 << 20, 1 << 20, 100, 7]),
        after_cancel: r.below(4) as usize,
    }
}

fn rows_steps(r: &mut Rng, blocks: usize, max_rows: u64, delays: u64) -> Vec<Step> {
    let mut v = vec![];
    let noise = |r: &mut Rng, v: &mut Vec<Step>| {
        while r.chance(250) {
            v.push(r.pick(&[Step::Progress, Step::Progress, Step::Profile]).clone());
        }
        if delays > 0 && r.chance(300) {
            v.push(Step::Delay(r.range(1, delays)));
        }
    };
    noise(r, &mut v);
    v.push(Step::Header);
    for _ in 0..blocks {
        noise(r, &mut v);
        let rows = if max_rows >= 9 && r.chance(12) { r.range(250, 1200) } else { r.range(1, max_rows) };
        v.push(Step::Rows(rows as usize));
        if r.chance(80) {
            v.push(Step::Empty);
        }
    }
    noise(r, &mut v);
    if r.chance(300) {
        v.push(Step::Empty);
    }
    v.push(Step::Eos);
    v
}

fn simple_script(r: &mut Rng, p: &mut Plan) -> usize {
    let cols = small_columns(r);
    let b = r.range(1, 3) as usize;
    let steps = rows_steps(r, b, 4, 0);
    let s = script(r, p.scripts.len(), cols, steps);
    p.scripts.push(s);
    p.scripts.len() - 1
}

fn exc(r: &mut Rng, id: usize) -> Exc {
    let n = r.below(40) as usize;
    Exc {
        code: match r.below(4) {
            // whatever the server's list of errors has
            0 => r.below(1100) as u32,
            1 => r.pick_c(&[0, 32, 36, 46, 47, 57, 81, 101, 102, 159, 160, 201, 202, 209, 210, 225, 242, 252, 285, 319, 365, 373, 394, 425, 516]),
            _ => r.pick_c(&[0, 60, 241, 62, 1000, u32::MAX >> 1]),
        },
        name: r.pick(&["DB::Exception", "DB::Exception", "std::exception", ""]).to_string(),
        message: format!("DB::Exception: no. {id} {}", "é".repeat(n)),
        stack: match r.below(20) {
            0..=9 => String::new(),
            10 => format!("0. frame {id}\n").repeat(r.range(10, 150) as usize),
            _ => format!("0. frame {id}\n1. main"),
        },
    }
}

fn op(kind: OpKind) -> Op {
    Op { kind, cancel: Cancel::No }
}
fn op_c(kind: OpKind, cancel: Cancel) -> Op {
    Op { kind, cancel }
}
fn mode(r: &mut Rng) -> Mode {
    r.pick_c(&[Mode::FetchAll, Mode::Blocks, Mode::Rows])
}
fn query(script: usize, mode: Mode) -> OpKind {
    OpKind::Query { script, mode, take: None, pause: None }
}

fn exec_script(r: &mut Rng, p: &mut Plan) -> usize {
    let mut steps = vec![];
    while r.chance(300) {
        steps.push(Step::Progress);
    }
    let cols = if r.chance(400) {
        steps.push(Step::Header);
        steps.push(Step::Rows(2));
        small_columns(r)
    } else {
        vec![]
    };
    steps.push(Step::Eos);
    let s = script(r, p.scripts.len(), cols, steps);
    p.scripts.push(s);
    p.scripts.len() - 1
}

// ---- inserts ----

/// (given, type of the column in the table)
fn src_scalar(r: &mut Rng) -> (Ty, Ty) {
    match r.below(23) {
        0..=6 => {
            let t = num(r);
            (t.clone(), t)
        }
        7 | 8 => (Ty::Str, Ty::Str),
        9 => {
            let t = Ty::Fixed(r.range(1, 12) as usize);
            (t.clone(), t)
        }
        10 => (Ty::Date, Ty::Date),
        11 => {
            let t = Ty::DateTime(tz_opt(r));
            (t.clone(), t)
        }
        12 => (Ty::DateTime(tz_opt(r)), Ty::DateTime64(r.range(0, 9) as u32, tz_opt(r))),
        13 => (Ty::V4, Ty::V4),
        14 => (Ty::V6, Ty::V6),
        15 => (Ty::Uuid, Ty::Uuid),
        16 => {
            let p0 = r.range(1, 17) as u8;
            let s0 = r.range(0, p0 as u64) as u8;
            let add = r.range(0, (18 - p0) as u64) as u8;
            let more = r.range(0, (18 - p0 - add) as u64) as u8;
            // s2 >= s0, and as many digits in front
            (Ty::Dec(p0, s0), Ty::Dec(p0 + add + more, s0 + add))
        }
        17 => {
            let t = enum8(r);
            (t.clone(), t)
        }
        18 => {
            let t = enum16(r);
            (t.clone(), t)
        }
        19 => {
            let t = Ty::Str;
            (t.clone(), Ty::Low(Box::new(t)))
        }
        20 => {
            let t = r.pick(&[Ty::Date, Ty::U32, Ty::I64]).clone();
            (t.clone(), Ty::Low(Box::new(t)))
        }
        21 => dt64(r),
        _ => {
            let t = r.pick(&[Ty::U64, Ty::F64]).clone();
            (t.clone(), Ty::Agg("sum".into(), Box::new(t)))
        }
    }
}

/// Times with fractions; the column has as many digits or more.
fn dt64(r: &mut Rng) -> (Ty, Ty) {
    let p0 = r.range(0, 9) as u32;
    let p = if p0 == 9 { 9 } else { r.range(p0 as u64, 8) as u32 };
    (Ty::DateTime64(p0, tz_opt(r)), Ty::DateTime64(p, tz_opt(r)))
}

fn src_type(r: &mut Rng) -> (Ty, Ty) {
    match r.below(11) {
        0..=5 => src_scalar(r),
        6 | 7 => {
            let t = match r.below(21) {
                0 => Ty::U8,
                1 => Ty::U16,
                2 => Ty::U32,
                3 => Ty::U64,
                4 => Ty::I8,
                5 => Ty::I16,
                6 => Ty::I32,
                7 => Ty::I64,
                8 => Ty::F32,
                9 => Ty::F64,
                10 => Ty::Str,
                11 => Ty::Fixed(r.range(1, 9) as usize),
                12 => Ty::Date,
                13 => Ty::DateTime(tz_opt(r)),
                14 => Ty::V4,
                15 => Ty::V6,
                16 => Ty::Uuid,
                17 => dec(r),
                18 => r.pick(&[Ty::Bool, Ty::U128, Ty::I128]).clone(),
                19 => {
                    let (a, b) = dt64(r);
                    return (Ty::Nullable(Box::new(a)), Ty::Nullable(Box::new(b)));
                }
                _ => {
                    if r.chance(500) {
                        enum8(r)
                    } else {
                        enum16(r)
                    }
                }
            };
            let t = Ty::Nullable(Box::new(t));
            (t.clone(), t)
        }
        8 => {
            let t = match r.below(17) {
                0 => Ty::U8,
                1 => Ty::U16,
                2 => Ty::U32,
                3 => Ty::U64,
                4 => Ty::I8,
                5 => Ty::I16,
                6 => Ty::I32,
                7 => Ty::I64,
                8 => Ty::F32,
                9 => Ty::F64,
                10 => Ty::Str,
                11 => Ty::Date,
                12 => Ty::DateTime(tz_opt(r)),
                13 => r.pick(&[Ty::Bool, Ty::U128, Ty::I128]).clone(),
                14 => {
                    let (a, b) = dt64(r);
                    return (Ty::Array(Box::new(a)), Ty::Array(Box::new(b)));
                }
                15 => enum8(r),
                _ => enum16(r),
            };
            let t = Ty::Array(Box::new(t));
            (t.clone(), t)
        }
        9 => {
            let (k, v) = r
                .pick(&[(Ty::Str, Ty::U8), (Ty::Str, Ty::U64), (Ty::Str, Ty::I32), (Ty::U32, Ty::U64), (Ty::I64, Ty::I16), (Ty::U8, Ty::U8)])
                .clone();
            let t = Ty::Map(Box::new(k), Box::new(v));
            (t.clone(), t)
        }
        _ => {
            let (s, d) = src_scalar(r);
            match d {
                Ty::Low(_) | Ty::Agg(..) => (s, d),
                d => (s, Ty::Agg(r.pick_c(&["any", "anyLast", "min", "max"]).into(), Box::new(d))),
            }
        }
    }
}

/// Types of rows that are pushed.
fn row_type(r: &mut Rng) -> (Ty, Ty) {
    let arr = |t: Ty| Ty::Array(Box::new(t));
    let map = |k: Ty, v: Ty| Ty::Map(Box::new(k), Box::new(v));
    let t = match r.below(24) {
        0..=7 => loop {
            let (s, d) = src_type(r);
            if crate::client::pushable(&s) && !has_dt64(&s) {
                return (s, d);
            }
        },
        8 => arr(arr(r.pick(&[Ty::U32, Ty::Str, Ty::I64, Ty::Date]).clone())),
        9 => arr(Ty::Nullable(Box::new(r.pick(&[Ty::U32, Ty::Str, Ty::I64, Ty::Date, Ty::Uuid]).clone()))),
        10 => map(Ty::Str, Ty::Str),
        11 => map(Ty::Str, Ty::DateTime(tz_opt(r))),
        12 => map(Ty::U8, Ty::Date),
        13 => map(Ty::Str, Ty::Nullable(Box::new(Ty::I32))),
        14 => map(Ty::I64, arr(Ty::U32)),
        15 => map(Ty::Str, small_map()),
        16 => arr(r.pick(&[Ty::V4, Ty::V6, Ty::Uuid]).clone()),
        17 => arr(Ty::Dec(18, r.range(0, 18) as u8)),
        18 => arr(small_map()),
        19 => Ty::DateTime64(r.range(0, 9) as u32, Some(tz(r))),
        20 => Ty::Nullable(Box::new(Ty::DateTime64(r.range(0, 9) as u32, Some(tz(r))))),
        21 => arr(Ty::DateTime64(r.range(0, 9) as u32, Some(tz(r)))),
        22 => arr(if r.chance(500) { enum8(r) } else { enum16(r) }),
        _ => loop {
            let v = scalar(r);
            if !has_dt64(&v) && !matches!(v, Ty::Fixed(_)) && crate::client::pushable(&v) {
                break map(r.pick(&[Ty::U16, Ty::I32, Ty::U64]).clone(), v);
            }
        },
    };
    (t.clone(), t)
}
fn has_dt64(t: &Ty) -> bool {
    match t {
        Ty::DateTime64(..) => true,
        Ty::Nullable(t) | Ty::Array(t) => has_dt64(t),
        _ => false,
    }
}

fn insert(r: &mut Rng, p: &mut Plan, rows: usize, wide: bool) -> usize {
    let id = p.inserts.len();
    let n = if wide { r.range(1, 4) } else { 1 };
    let by_row = r.chance(350) && rows > 0;
    let cols: Vec<InsCol> = (0..n as usize)
        .map(|i| {
            let (src, dst) = if wide && by_row {
                row_type(r)
            } else if wide {
                src_type(r)
            } else { r.pick(&[(Ty::U64, Ty::U64), (Ty::Str, Ty::Str)]).clone() };
            InsCol { src: Col { name: col_name(r, i), ty: src, seed: r.next() >> 2 }, dst }
        })
        .collect();
    p.inserts.push(Ins {
        table: table(r, id),
        qid: if r.chance(150) { Some(format!("insert-{id}")) } else { None },
        cols,
        rows,
        by_row,
        table_columns: r.chance(300),
        delay: r.pick_c(&[0, 0, 3]),
        fail: None,
        from: None,
        clone_at: if by_row && r.chance(200) { Some(r.below(rows as u64) as usize) } else { None },
        misfit: None,
    });
    id
}

/// A block that cannot be inserted into the table as it is.
fn misfit(r: &mut Rng, p: &mut Plan) -> usize {
    let rows = r.range(1, 6) as usize;
    let i = insert(r, p, rows, false);
    let ins = &mut p.inserts[i];
    let m = r.pick_c(&[Misfit::MoreColumns, Misfit::FewerColumns, Misfit::Type, Misfit::Type, Misfit::Text, Misfit::Name]);
    let arr = |t| Ty::Array(Box::new(t));
    match m {
        Misfit::Type => {
            let (s, d) = r
                .pick(&[
                    (Ty::U64, Ty::Str),
                    (Ty::Str, Ty::U64),
                    (Ty::Date, Ty::U64),
                    (Ty::U64, Ty::Date),
                    (Ty::U64, arr(Ty::Str)),
                    (arr(Ty::U32), Ty::U32),
                    (Ty::Str, Ty::Uuid),
                    (Ty::Uuid, Ty::DateTime(None)),
                    (arr(Ty::Str), arr(Ty::U64)),
                    (Ty::Bool, Ty::Nullable(Box::new(Ty::Str))),
                    (Ty::F64, Ty::Low(Box::new(Ty::Str))),
                    (Ty::Str, Ty::Agg("sum".into(), Box::new(Ty::U64))),
                ])
                .clone();
            ins.cols[0].src.ty = s;
            ins.cols[0].dst = d;
            ins.by_row = false;
        }
        Misfit::Text => {
            ins.cols[0].src.ty = Ty::Str;
            ins.cols[0].dst = r.pick(&[Ty::V4, Ty::V6]).clone();
        }
        Misfit::Name => ins.cols[0].src.name = "a`b".into(),
        _ => {}
    }
    ins.misfit = Some(m);
    i
}

/// A block with a column of a type the client does not know.
fn unsupported(r: &mut Rng, compressed: bool) -> Vec<u8> {
    let ty = r.pick_c(&[
        "NoSuchType",
        "Tuple(UInt8, String)",
        "Array(Tuple(UInt8, String))",
        "Nullable(Nothing)",
        "Nothing",
        "Int256",
        "UInt256",
        "Date32",
        "Nullable(Date32)",
        "Map(String, Int256)",
        "AggregateFunction(sum, UInt64)",
        "Object('json')",
        "Point",
        "IntervalDay",
        "DateTime('Nowhere/Nothing')",
        "DateTime64(3, 'Nowhere/Nothing')",
        "SimpleAggregateFunction(noSuch, UInt64)",
        "Nested(a UInt8, b String)",
    ]);
    let mut b = vec![1, 0, 2, 0xff, 0xff, 0xff, 0xff, 0, 1, r.below(2) as u8];
    put_str(&mut b, b"x");
    put_str(&mut b, ty.as_bytes());
    b.extend([0; 16]);
    let mut p = vec![1, 0];
    p.extend(if compressed { crate::codec::frame(&b) } else { b });
    p
}

/// A block of the last script.
fn reinsert(r: &mut Rng, p: &mut Plan) -> usize {
    let id = p.inserts.len();
    let script = p.scripts.len() - 1;
    let s = &p.scripts[script];
    let sizes: Vec<usize> = s.steps.iter().filter_map(|x| if let Step::Rows(n) = x { Some(*n) } else { None }).collect();
    let block = r.below(sizes.len() as u64) as usize;
    let cols = s.cols.iter().map(|c| InsCol { src: c.clone(), dst: c.ty.clone() }).collect();
    p.inserts.push(Ins {
        table: table(r, id),
        qid: None,
        cols,
        rows: sizes[block],
        by_row: false,
        table_columns: r.chance(300),
        delay: 0,
        fail: None,
        from: Some(crate::plan::From {
            script,
            block,
            first_row: sizes[..block].iter().sum(),
            columns: r.chance(300),
        }),
        clone_at: None,
        misfit: None,
    });
    id
}

// ---- scenarios ----

pub fn generate(id: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed ^ (id.as_bytes()[1] as u64) << 40 ^ (id.as_bytes()[2] as u64) << 48);
    let r = &mut r;
    let mut p = pick_plan(id, r, seed);
    let small = ["C03", "C04", "C05", "C11", "C13", "C14", "C15"].contains(&id);
    if small && p.cfg.net.frag < 2 && p.cfg.net.window > 4096 && r.chance(40) {
        // now and then a lot of data
        for s in &mut p.scripts {
            for c in &mut s.cols {
                if c.ty.can_grow() && r.chance(300) {
                    c.seed |= LONG;
                }
            }
        }
        for i in &mut p.inserts {
            for c in &mut i.cols {
                if c.src.ty.can_grow() && c.src.ty == c.dst && r.chance(300) {
                    c.src.seed |= LONG;
                }
            }
        }
    }
    p
}

fn pick_plan(id: &str, r: &mut Rng, seed: u64) -> Plan {
    match id {
        "C01" => c01(r, seed),
        "C02" => c02(r, seed),
        "C03" => c03(r, seed),
        "C04" => c04(r, seed),
        "C05" => c05(r, seed),
        "C06" => c06(r, seed),
        "C07" => c07(r, seed),
        "C08" => c08(r, seed),
        "C09" => c09(r, seed),
        "C10" => c10(r, seed),
        "C11" => c11(r, seed),
        "C12" => c12(r, seed),
        "C13" => c13(r, seed),
        "C14" => c14(r, seed),
        "C15" => c15(r, seed),
        _ => panic!("unknown property {id}"),
    }
}

fn c01(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.net = wild_net(r);
    if r.chance(300) {
        threads(r, &mut cfg);
        cfg.park = 0;
    }
    let srv = server(r);
    let mut p = plan("C01", "results", seed, cfg, vec![srv]);
    let tasks = r.pick_c(&[1, 1, 1, 2, 3]);
    for _ in 0..tasks {
        let mut ops = vec![op(OpKind::Get)];
        for _ in 0..r.range(1, 3) {
            let id = p.scripts.len();
            let m = mode(r);
            let (cols, steps) = match r.below(12) {
                // a statement without a result
                0 => (vec![], vec![Step::Progress, Step::Eos]),
                1 => (columns(r, 2), vec![Step::Header, Step::Eos]),
                2 if r.chance(100) => {
                    let t = match r.below(3) {
                        0 => Ty::Low(Box::new(low_inner(r))),
                        1 => Ty::Low(Box::new(Ty::Str)),
                        _ => any_type(r),
                    };
                    let c = Col { name: "c".into(), ty: t, seed: r.next() >> 2 | DISTINCT };
                    let n = if p.cfg.net.frag < 2 && p.cfg.net.window > 4096 { round_number(r) } else { 257 };
                    (vec![c], vec![Step::Header, Step::Rows(n), Step::Eos])
                }
                2 => {
                    let n = r.range(200, 700) as usize;
                    let c = columns(r, 1);
                    (c, vec![Step::Header, Step::Rows(n), Step::Eos])
                }
                3 => {
                    let c = columns(r, 1);
                    let b = r.range(8, 30) as usize;
                    (c, rows_steps(r, b, 3, 0))
                }
                _ => {
                    let n = r.range(1, 5) as usize;
                    let c = columns(r, n);
                    let b = r.range(0, 5) as usize;
                    let d = r.pick_c(&[0, 0, 50, 5000]);
                    (c, rows_steps(r, b, 9, d))
                }
            };
            let mut s = script(r, id, cols, steps);
            if p.cfg.net.frag < 3 && p.cfg.net.window > 700 {
                long_strings(r, &mut s.cols);
            }
            p.scripts.push(s);
            ops.push(op(OpKind::Query {
                script: id,
                mode: m,
                take: None,
                pause: if r.chance(100) { Some((r.below(4) as usize, r.range(1, 300))) } else { None },
            }));
            if r.chance(150) {
                ops.push(op(OpKind::Ping));
            }
        }
        p.tasks.push(Task { start: Start::At(r.below(10)), ops });
    }
    if !p.cfg.pooled {
        p.cfg.min = 0;
    }
    p.expect.no_errors = true;
    p
}

fn c02(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.net = wild_net(r);
    if cfg.net.frag == 3 {
        cfg.net.frag = 2;
    }
    cfg.chunk = r.pick_c(&[1, 2, 3, 5, 8, 1_048_576]);
    let srv = server(r);
    let faulty = r.chance(350);
    let mut p = plan("C02", if faulty { "insert under faults" } else { "insert" }, seed, cfg, vec![srv]);
    let mut ops = vec![op(OpKind::Get)];
    for _ in 0..r.range(1, 3) {
        let rows = match r.below(8) {
            0 => 0,
            1 => r.range(1, 2) as usize,
            2 => p.cfg.chunk.min(20),
            3 => (p.cfg.chunk * 2).min(20),
            4 => r.range(20, 60) as usize,
            5 if p.cfg.net.frag < 2 && p.cfg.net.window > 4096 && r.chance(100) => {
                p.cfg.chunk = r.pick_c(&[300, 1000, 1_048_576]);
                r.range(200, 2500) as usize
            }
            _ => r.range(1, 20) as usize,
        };
        // what has been read is written again
        let i = if r.chance(200) {
            let (cols, b) = (columns(r, 3), r.range(1, 3) as usize);
            let steps = rows_steps(r, b, 8, 0);
            let s = script(r, p.scripts.len(), cols, steps);
            ops.push(op(query(p.scripts.len(), Mode::Blocks)));
            p.scripts.push(s);
            reinsert(r, &mut p)
        } else {
            let i = insert(r, &mut p, rows, true);
            if p.cfg.net.frag < 2 && p.cfg.net.window > 4096 && p.inserts[i].cols.iter().any(|c| matches!(c.dst, Ty::Low(_))) && r.chance(100) {
                let n = round_number(r);
                let ins = &mut p.inserts[i];
                ins.rows = n;
                for c in &mut ins.cols {
                    if c.src.ty.enumerable() {
                        c.src.seed |= DISTINCT;
                    }
                }
                p.cfg.chunk = r.pick_c(&[250, 256, 65_536, 1_048_576]).max(n / 60);
            }
            if p.cfg.net.frag < 2 && p.cfg.net.window > 4096 && r.chance(200) {
                for c in &mut p.inserts[i].cols {
                    if c.src.ty.can_grow() && c.src.ty == c.dst {
                        c.src.seed |= LONG;
                    }
                }
            }
            i
        };
        let rows = p.inserts[i].rows;
        let mut cancel = Cancel::No;
        if faulty && r.chance(700) {
            let chunks = (rows / p.cfg.chunk).max(1) as u64;
            let k = r.below(chunks) as usize;
            let how = r.pick(&[CutKind::Fin, CutKind::Fin, CutKind::Rst, CutKind::Silent]).clone();
            let e = exc(r, 1000 + i);
            p.inserts[i].fail = Some((
                k,
                match r.below(8) {
                    0 => InsFail::ExcAtQuery(e),
                    1 => InsFail::ExcAtData(e),
                    2 => InsFail::ExcAtEnd(e),
                    3 => InsFail::CloseAtQuery(how),
                    4 => InsFail::CloseInData(r.range(1, 200) as usize, how),
                    5 => InsFail::CloseAtEnd(how),
                    6 => InsFail::CutHeader(r.range(1, 60) as usize, how),
                    _ => {
                        cancel = if r.chance(500) { Cancel::Polls(r.range(1, 40) as u32) } else { Cancel::Ms(r.range(0, 80)) };
                        InsFail::CloseAtEnd(CutKind::Silent)
                    }
                },
            ));
            if r.chance(80) {
                let m = misfit(r, &mut p);
                ops.push(op(OpKind::Insert(m)));
            }
            if let Some((_, InsFail::CloseAtEnd(CutKind::Silent))) = p.inserts[i].fail {
                if cancel != Cancel::No {
                    p.inserts[i].fail = None;
                }
            }
        }
        ops.push(op_c(OpKind::Insert(i), cancel));
    }
    if !faulty {
        p.expect.no_errors = true;
    } else {
        p.cfg.insert_ms = Some(r.pick_c(&[30_000, 60_000]));
    }
    p.tasks.push(Task { start: Start::At(0), ops });
    p
}

/// A mix of operations on handles, some abandoned, without network faults.
fn mixed_ops(r: &mut Rng, p: &mut Plan, n: u64, abandon: u64, faulty_replies: bool) -> Vec<Op> {
    let mut ops = vec![op(OpKind::Get)];
    for _ in 0..n {
        let cancel = if r.chance(abandon / 2) {
            if r.chance(500) {
                Cancel::Ms(r.range(0, 40))
            } else {
                Cancel::Polls(r.range(1, 12) as u32)
            }
        } else {
            Cancel::No
        };
        match r.below(10) {
            0 => ops.push(op_c(OpKind::Ping, cancel)),
            1 => {
                let s = exec_script(r, p);
                if faulty_replies && r.chance(300) {
                    let e = exc(r, s);
                    p.scripts[s].steps = vec![Step::Progress, Step::Exception(e)];
                } else if faulty_replies && cancel == Cancel::No && r.chance(100) {
                    spoil(r, p, s);
                }
                ops.push(op_c(OpKind::Exec(s), cancel));
            }
            2 => {
                let rows = r.range(1, 6) as usize;
                let bad = faulty_replies && r.chance(100);
                let i = if bad { misfit(r, p) } else { insert(r, p, rows, false) };
                if faulty_replies && !bad && r.chance(300) {
                    let e = exc(r, 1000 + i);
                    let f = match r.below(3) {
                        0 => InsFail::ExcAtQuery(e),
                        1 => InsFail::ExcAtData(e),
                        _ => InsFail::ExcAtEnd(e),
                    };
                    p.inserts[i].fail = Some((0, f));
                }
                ops.push(op_c(OpKind::Insert(i), cancel));
            }
            3 => {
                ops.push(op(OpKind::Drop));
                if r.chance(300) {
                    ops.push(op(OpKind::Sleep(r.range(1, 40))));
                }
                let c = if r.chance(abandon / 3) { Cancel::Ms(r.range(0, 10)) } else { Cancel::No };
                ops.push(op_c(OpKind::Get, c));
            }
            _ => {
                let id = p.scripts.len();
                let cols = small_columns(r);
                let b = r.range(1, 5) as usize;
                let d = if r.chance(500) { 30 } else { 0 };
                let mut steps = rows_steps(r, b, 4, d);
                if faulty_replies && r.chance(200) {
                    let at = r.idx(steps.len());
                    steps.truncate(at);
                    steps.push(Step::Exception(exc(r, id)));
                }
                let s = script(r, id, cols, steps);
                p.scripts.push(s);
                let take = if r.chance(abandon) { Some(r.below(5) as usize) } else { None };
                let m = if take.is_some() { r.pick_c(&[Mode::Blocks, Mode::Rows]) } else { mode(r) };
                let cancel = if take.is_some() { Cancel::No } else { cancel };
                if faulty_replies && take.is_none() && cancel == Cancel::No && r.chance(60) {
                    spoil(r, p, id);
                }
                ops.push(op_c(OpKind::Query { script: id, mode: m, take, pause: None }, cancel));
                // give the rest of an abandoned reply time to arrive, or not
                if r.chance(300) {
                    ops.push(op(OpKind::Sleep(r.range(1, 60))));
                }
            }
        }
    }
    ops
}

/// Puts something the client does not understand into a reply; the server does not notice and goes on.
fn spoil(r: &mut Rng, p: &mut Plan, script: usize) {
    // whoever clears the connection after a timeout would find it
    if p.cfg.query_ms < 1000 {
        return;
    }
    let mut m = malformed(r, p.cfg.compression);
    if m == [4] {
        m = vec![99];
    }
    let s = &mut p.scripts[script];
    if s.steps.iter().any(|x| matches!(x, Step::Exception(_))) {
        return;
    }
    let at = r.idx(s.steps.len());
    s.steps.insert(at, Step::Raw(m));
}

fn c03(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.pooled = r.chance(850);
    cfg.max = r.range(1, 2) as usize;
    cfg.min = cfg.max;
    cfg.ping_before = r.chance(600);
    cfg.send_retries = r.range(0, 2) as usize;
    cfg.net = wild_net(r);
    if r.chance(400) {
        threads(r, &mut cfg);
    }
    if r.chance(300) {
        cfg.query_ms = r.range(10, 80);
        cfg.exec_ms = Some(r.range(10, 80));
        cfg.insert_ms = Some(r.range(10, 80));
    }
    let srv = server(r);
    let mut p = plan("C03", "abandoned replies", seed, cfg, vec![srv]);
    let tasks = if p.cfg.pooled { r.pick_c(&[1, 2, 3]) } else { 1 };
    for _ in 0..tasks {
        let n = r.range(2, 6);
        let mut ops = mixed_ops(r, &mut p, n, 450, true);
        ops.push(op(OpKind::Drop));
        p.tasks.push(Task { start: Start::At(r.below(20)), ops });
    }
    p.expect.classify = true;
    p
}

/// Replies that are not legal.
fn malformed(r: &mut Rng, compressed: bool) -> Vec<u8> {
    match r.below(7) {
        1 if compressed => {
            // a frame with a wrong checksum
            let mut b = vec![1, 0];
            b.extend([5; 16]);
            b.extend([0x82, 20, 0, 0, 0, 9, 0, 0, 0]);
            b.extend([0; 40]);
            b
        }
        0 => vec![r.range(12, 127) as u8],
        1 | 5 => unsupported(r, compressed),
        2 => vec![0xff, 0xff, 0xff, 0xff, 0x0f],
        3 => vec![100, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        4 => vec![4],
        _ => {
            let mut b = vec![11];
            put_str(&mut b, b"");
            put_str(&mut b, b"columns format version: 1\n");
            b
        }
    }
}

fn c04(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.net = wild_net(r);
    cfg.net.lossy_close = false;
    cfg.query_ms = 100_000;
    cfg.exec_ms = Some(100_000);
    cfg.insert_ms = Some(100_000);
    let mut srv = server(r);
    // with retries a failed ping would be repaired
    cfg.send_retries = r.below(2) as usize;
    let mut p = plan("C04", "failing replies", seed, cfg, vec![]);
    let mut ops = vec![op(OpKind::Get)];
    let how = r.pick(&[CutKind::Fin, CutKind::Fin, CutKind::Rst]).clone();
    if r.chance(200) {
        let s = simple_script(r, &mut p);
        let m = mode(r);
        ops.push(op(query(s, m)));
    }
    match r.below(12) {
        0 => {
            // handshake
            p.scenario = "failing handshake".into();
            let n = r.below(30) as usize;
            let b = match r.below(5) {
                0 => Break::CutFin(n),
                1 => Break::CutRst(n),
                2 => Break::CutFin(0),
                3 => Break::Exception(exc(r, 1)),
                _ => Break::Raw(malformed(r, p.cfg.compression)),
            };
            srv.hello = vec![(0, b)];
            ops.truncate(1);
        }
        1 => {
            p.scenario = "failing ping".into();
            let b = match r.below(4) {
                0 => Break::CutFin(0),
                1 => Break::CutRst(0),
                2 => Break::Exception(exc(r, 1)),
                _ => Break::Raw(loop {
                    let b = malformed(r, p.cfg.compression);
                    if b != [4] {
                        break b;
                    }
                }),
            };
            // the explicit ping below
            let before = ops.iter().filter(|o| matches!(o.kind, OpKind::Query { .. })).count();
            let n = if p.cfg.ping_before { before } else { 0 };
            srv.pong = vec![(n, b)];
            ops.push(op(OpKind::Ping));
        }
        2..=4 => {
            p.scenario = "failing insert".into();
            p.cfg.chunk = r.pick_c(&[2, 5, 1_048_576]);
            let rows = r.range(0, 12) as usize;
            let bad = r.chance(200);
            let i = if bad { misfit(r, &mut p) } else { insert(r, &mut p, rows, false) };
            let chunks = (rows / p.cfg.chunk).max(1) as u64;
            let k = r.below(chunks) as usize;
            let e = exc(r, 1000 + i);
            let f = match r.below(6) {
                0 => InsFail::ExcAtQuery(e),
                1 => InsFail::ExcAtEnd(e),
                2 => InsFail::CloseAtQuery(how),
                3 => InsFail::CloseInData(r.range(1, 60) as usize, how),
                4 => InsFail::CloseAtEnd(how),
                _ => InsFail::CutHeader(r.range(0, 60) as usize, how),
            };
            if !bad {
                p.inserts[i].fail = Some((k, f));
            }
            ops.push(op(OpKind::Insert(i)));
        }
        k => {
            let exec = k >= 10;
            let id = p.scripts.len();
            let cols = if r.chance(500) { columns(r, 2) } else { small_columns(r) };
            let b = r.range(0, 4) as usize;
            let d = if r.chance(300) { 20 } else { 0 };
            let mut steps = rows_steps(r, b, 6, d);
            let mut cut = None;
            match r.below(10) {
                0..=3 => {
                    p.scenario = "exception".into();
                    let at = r.idx(steps.len());
                    steps.truncate(at);
                    steps.push(Step::Exception(exc(r, id)));
                    if r.chance(500) {
                        steps.push(Step::Close);
                    }
                }
                4 => {
                    p.scenario = "malformed reply".into();
                    let at = r.idx(steps.len());
                    steps.truncate(at);
                    let m = malformed(r, p.cfg.compression);
                    steps.push(Step::Raw(m));
                    steps.push(Step::Stall);
                }
                5 => {
                    p.scenario = "closed between packets".into();
                    let at = r.idx(steps.len());
                    steps.truncate(at);
                    steps.push(Step::Close);
                }
                _ => {
                    p.scenario = "cut reply".into();
                    cut = Some((0, how));
                }
            }
            let mut s = script(r, id, cols, steps);
            if let Some((_, how)) = cut {
                s.cut = Some((1, how));
                let total = crate::server::reply_len(&s, srv.revision, p.cfg.compression);
                let at = match r.below(4) {
                    0 => r.below(total.min(40) as u64),
                    1 => total as u64 - 1 - r.below(total.min(20) as u64),
                    _ => r.below(total as u64),
                };
                s.cut.as_mut().unwrap().0 = at as usize;
            }
            p.scripts.push(s);
            let m = mode(r);
            ops.push(op(if exec { OpKind::Exec(id) } else { query(id, m) }));
        }
    }
    if p.cfg.ping_before && p.cfg.send_retries > 0 && r.chance(400) {
        // and the handle goes on
        let s = simple_script(r, &mut p);
        let m = mode(r);
        ops.push(op(query(s, m)));
    }
    p.servers = vec![srv];
    p.tasks.push(Task { start: Start::At(0), ops });
    p.expect.classify = true;
    p
}

fn down(r: &mut Rng) -> Down {
    r.pick_c(&[Down::Crash, Down::Crash, Down::Dead, Down::Partition, Down::Hang, Down::Refuse, Down::Deaf])
}

fn c05(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.pooled = r.chance(600);
    cfg.max = r.range(1, 3) as usize;
    cfg.min = r.range(0, cfg.max as u64) as usize;
    cfg.ping_before = r.chance(800);
    cfg.send_retries = r.range(1, 3) as usize;
    cfg.retry_ms = r.range(1, 50);
    cfg.ping_ms = r.range(60, 200);
    cfg.conn_ms = r.range(100, 300);
    cfg.query_ms = r.range(3000, 5000);
    cfg.exec_ms = Some(r.range(3000, 5000));
    cfg.insert_ms = Some(r.range(3000, 5000));
    cfg.net = wild_net(r);
    cfg.net.window = cfg.net.window.max(700);
    cfg.net.jitter = cfg.net.jitter.min(3);
    if r.chance(300) {
        threads(r, &mut cfg);
        cfg.park = 0;
    }
    let srv = server(r);
    let mut p = plan("C05", "recovery", seed, cfg, vec![srv]);
    let tasks = if p.cfg.pooled { r.range(1, p.cfg.max as u64) } else { r.range(1, 2) };
    let t_heal = 60_000;
    for _ in 0..tasks {
        let n = r.range(1, 5);
        let mut ops = mixed_ops(r, &mut p, n, 350, true);
        ops.retain(|o| o.kind != OpKind::Drop);
        // only one handle per task
        let mut seen = false;
        ops.retain(|o| o.kind != OpKind::Get || !std::mem::replace(&mut seen, true));
        // some of the scripts fail in other ways
        for o in &ops {
            if let OpKind::Query { script, .. } | OpKind::Exec(script) = o.kind {
                let z = p.cfg.compression;
                let s = &mut p.scripts[script];
                match r.below(8) {
                    0 => {
                        let at = r.idx(s.steps.len());
                        s.steps.truncate(at);
                        s.steps.push(Step::Stall);
                    }
                    1 => {
                        let at = r.idx(s.steps.len());
                        s.steps.truncate(at);
                        s.steps.push(Step::Close);
                    }
                    2 => s.cut = Some((r.range(0, 80) as usize, r.pick(&[CutKind::Fin, CutKind::Rst, CutKind::Silent]).clone())),
                    3 => {
                        let at = r.idx(s.steps.len());
                        s.steps.truncate(at);
                        let mut m = malformed(r, z);
                        if m == [4] {
                            m = vec![99];
                        }
                        s.steps.push(Step::Raw(m));
                        s.steps.push(Step::Stall);
                    }
                    _ => {}
                }
            }
        }
        // a stream has no timeout: it needs to be cancelled when nothing comes
        for o in &mut ops {
            if matches!(o.kind, OpKind::Query { .. }) && o.cancel == Cancel::No {
                o.cancel = Cancel::Ms(r.range(2000, 7000));
            }
        }
        let mut spread = vec![];
        for o in ops {
            spread.push(o);
            if r.chance(200) {
                spread.push(op(OpKind::Sleep(r.range(1, 400))));
            }
        }
        spread.push(op(OpKind::Sleep(t_heal + 60_000)));
        // recovered?
        for _ in 0..r.range(1, 3) {
            match r.below(4) {
                0 => {
                    let s = exec_script(r, &mut p);
                    spread.push(op(OpKind::Exec(s)));
                }
                1 => {
                    let rows = r.range(1, 4) as usize;
                    let i = insert(r, &mut p, rows, false);
                    spread.push(op(OpKind::Insert(i)));
                }
                2 => spread.push(op(OpKind::Check)),
                _ => {
                    let s = simple_script(r, &mut p);
                    let m = mode(r);
                    // without the ping, what is left of a silent server is waited for
                    let c = if p.cfg.ping_before { Cancel::No } else { Cancel::Ms(7_000) };
                    spread.push(op_c(query(s, m), c));
                }
            }
            if r.chance(300) {
                spread.push(op(OpKind::Ping));
            }
        }
        spread.push(op(OpKind::Drop));
        p.tasks.push(Task { start: Start::At(r.below(20)), ops: spread });
    }
    let mut t = 0;
    for _ in 0..r.below(4) {
        t += r.range(1, 800);
        let f = match r.below(5) {
            0 => Fault::CloseAll(0),
            1 => Fault::ResetAll(0),
            2 => Fault::Farewell(0),
            _ => Fault::Down(0, down(r)),
        };
        p.faults.push((t, f));
        if matches!(f, Fault::Down(..)) {
            t += r.range(1, 1500);
            p.faults.push((t, Fault::Up(0)));
        }
    }
    p.expect.ok_after = Some(t_heal);
    p
}

fn c06(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.compression = true;
    cfg.net = wild_net(r);
    cfg.query_ms = 50_000;
    cfg.exec_ms = Some(50_000);
    let srv = server(r);
    let mut p = plan("C06", "bit flips", seed, cfg, vec![srv]);
    let mut ops = vec![op(OpKind::Get)];
    for _ in 0..r.range(1, 3) {
        let id = p.scripts.len();
        let cols = columns(r, 2);
        let b = r.range(0, 3) as usize;
        let mut steps = rows_steps(r, b, 8, 0);
        let altered = r.chance(650);
        if altered {
            steps.push(Step::Close);
        }
        let blocks = steps.iter().filter(|s| matches!(s, Step::Header | Step::Rows(_) | Step::Empty)).count();
        let mut s = script(r, id, cols, steps);
        s.frame = r.pick_c(&[1 << 20, 100, 20]);
        if altered {
            let at = match r.below(3) {
                0 => 1_000_000 + r.below(25),
                _ => r.below(1_000_000),
            };
            s.flip = Some((r.idx(blocks), at, r.below(8) as u8));
        }
        p.scripts.push(s);
        let exec = r.chance(100);
        let m = mode(r);
        ops.push(op(if exec { OpKind::Exec(id) } else { query(id, m) }));
        if !p.cfg.ping_before {
            ops.push(op(OpKind::Drop));
            ops.push(op(OpKind::Get));
        }
    }
    p.tasks.push(Task { start: Start::At(0), ops });
    p.expect.classify = true;
    p
}

/// Several tasks compete for the connections of a pool.
fn pool_race(r: &mut Rng, id: &str, scenario: &str, seed: u64, faults: bool) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.pooled = true;
    cfg.max = r.pick_c(&[1, 1, 2, 2, 3]);
    cfg.min = r.range(0, cfg.max as u64) as usize;
    cfg.ping_before = r.chance(600);
    cfg.send_retries = r.range(0, 2) as usize;
    cfg.retry_ms = r.range(1, 30);
    cfg.ping_ms = r.pick_c(&[100, 300]);
    cfg.conn_ms = r.pick_c(&[60, 100, 300]);
    cfg.query_ms = 1000;
    cfg.exec_ms = Some(1000);
    cfg.insert_ms = Some(1000);
    cfg.net = quiet_net();
    cfg.net.latency = r.pick_c(&[0, 0, 1, 3]);
    cfg.net.jitter = r.pick_c(&[0, 0, 4]);
    threads(r, &mut cfg);
    let hosts = r.pick_c(&[1, 1, 2]);
    cfg.hosts = (0..hosts).map(Host::new).collect();
    let mut srv: Vec<Server> = (0..hosts).map(|_| server(r)).collect();
    let tz = srv[0].tz.clone();
    for s in &mut srv {
        s.revision = 54429;
        s.tz = tz.clone();
    }
    if faults {
        for s in &mut srv {
            for k in 0..6 {
                if r.chance(120) {
                    let b = match r.below(4) {
                        0 => Break::CutFin(r.below(10) as usize),
                        1 => Break::Silent,
                        2 => Break::Exception(exc(r, 1)),
                        _ => Break::Delay(r.range(1, 150)),
                    };
                    s.hello.push((k, b));
                }
            }
        }
    }
    let mut p = plan(id, scenario, seed, cfg, srv);
    let tasks = r.range(2, 5);
    for _ in 0..tasks {
        let mut ops = vec![];
        if r.chance(300) {
            ops.push(op(OpKind::Sleep(r.below(30))));
        }
        for _ in 0..r.range(1, 3) {
            let cancel = match r.below(5) {
                0 => Cancel::Ms(r.range(0, 12)),
                1 if r.chance(500) => Cancel::Polls(r.range(1, 6) as u32),
                _ => Cancel::No,
            };
            ops.push(op_c(OpKind::Get, cancel));
            for _ in 0..r.below(3) {
                let c = if r.chance(200) { Cancel::Ms(r.range(0, 20)) } else { Cancel::No };
                match r.below(6) {
                    0 => ops.push(op_c(OpKind::Ping, c)),
                    1 => ops.push(op(OpKind::Sleep(r.range(1, 25)))),
                    2 => {
                        let s = exec_script(r, &mut p);
                        if faults && r.chance(300) {
                            let e = exc(r, s);
                            p.scripts[s].steps = vec![Step::Exception(e)];
                        }
                        ops.push(op_c(OpKind::Exec(s), c));
                    }
                    3 if r.chance(600) => {
                        let i = insert(r, &mut p, 2, false);
                        if faults && r.chance(500) {
                            let e = exc(r, 1000 + i);
                            let how = r.pick(&[CutKind::Fin, CutKind::Rst]).clone();
                            let f = match r.below(5) {
                                0 => InsFail::ExcAtQuery(e),
                                1 => InsFail::ExcAtData(e),
                                2 => InsFail::ExcAtEnd(e),
                                3 => InsFail::CloseAtQuery(how),
                                _ => InsFail::CloseAtEnd(how),
                            };
                            p.inserts[i].fail = Some((0, f));
                        }
                        ops.push(op_c(OpKind::Insert(i), c));
                    }
                    4 if r.chance(200) => ops.push(op_c(OpKind::Check, c)),
                    _ => {
                        let s = simple_script(r, &mut p);
                        let m = mode(r);
                        let take = if m != Mode::FetchAll && r.chance(300) { Some(r.below(3) as usize) } else { None };
                        if faults {
                            match r.below(8) {
                                0 => p.scripts[s].cut = Some((r.below(60) as usize, r.pick(&[CutKind::Fin, CutKind::Rst]).clone())),
                                1 => {
                                    let e = exc(r, s);
                                    p.scripts[s].steps = vec![Step::Header, Step::Exception(e)];
                                }
                                2 if take.is_none() && c == Cancel::No => spoil(r, &mut p, s),
                                _ => {}
                            }
                        }
                        ops.push(op_c(OpKind::Query { script: s, mode: m, take, pause: None }, c));
                    }
                }
            }
            if r.chance(700) {
                ops.push(op(OpKind::Drop));
                if r.chance(300) {
                    ops.push(op(OpKind::Sleep(r.below(20))));
                }
            }
        }
        ops.push(op(OpKind::Drop));
        p.tasks.push(Task { start: Start::At(r.pick_c(&[0, 0, 0, 1, 5])), ops });
    }
    p
}

fn outages(r: &mut Rng, p: &mut Plan, n: u64, span: u64) -> u64 {
    let servers = p.servers.len();
    let mut end = 0;
    for s in 0..servers {
        let mut t = 0;
        for _ in 0..r.below(n + 1) {
            t += r.range(1, span);
            let f = match r.below(4) {
                0 => Fault::CloseAll(s),
                1 => Fault::ResetAll(s),
                _ => Fault::Down(s, down(r)),
            };
            p.faults.push((t, f));
            if matches!(f, Fault::Down(..)) {
                t += r.range(1, span * 2);
                p.faults.push((t, Fault::Up(s)));
            }
        }
        end = end.max(t);
    }
    p.faults.sort_by_key(|f| f.0);
    end
}

fn c07(r: &mut Rng, seed: u64) -> Plan {
    let faults = r.chance(500);
    let mut p = pool_race(r, "C07", "pool race", seed, faults);
    if faults {
        outages(r, &mut p, 2, 60);
    }
    p
}

fn c08(r: &mut Rng, seed: u64) -> Plan {
    let faults = r.chance(450);
    let mut p = pool_race(r, "C08", "waiters", seed, faults);
    p.cfg.park = 0;
    if faults {
        outages(r, &mut p, 2, 60);
    }
    if r.chance(250) {
        // somebody sits on a stalled query; the others must not care
        p.cfg.max = p.cfg.max.max(2);
        let id = p.scripts.len();
        let cols = small_columns(r);
        let s = script(r, id, cols, vec![Step::Header, Step::Rows(1), Step::Stall]);
        p.scripts.push(s);
        let ops = vec![
            op(OpKind::Get),
            op_c(OpKind::Query { script: id, mode: Mode::Blocks, take: None, pause: None }, Cancel::Ms(900_000)),
            op(OpKind::Drop),
        ];
        p.tasks.insert(0, Task { start: Start::At(0), ops });
    }
    p.expect.grow_bound = Some(0);
    p.horizon = 2_000_000;
    p
}

/// Good connections are kept.
fn c09_kept(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.pooled = true;
    cfg.max = r.range(1, 3) as usize;
    cfg.min = r.range(1, cfg.max as u64) as usize;
    cfg.workers = 1;
    cfg.net = quiet_net();
    cfg.net.frag = r.below(3) as u8;
    cfg.net.latency = r.pick_c(&[0, 1, 3]);
    let srv = server(r);
    let mut p = plan("C09", "connections are kept", seed, cfg, vec![srv]);
    let mut ops = vec![];
    for _ in 0..r.range(2, 4) {
        ops.push(op(OpKind::Get));
        for _ in 0..r.below(3) {
            match r.below(6) {
                0 => ops.push(op(OpKind::Ping)),
                1 => ops.push(op(OpKind::Check)),
                2 => {
                    let s = exec_script(r, &mut p);
                    ops.push(op(OpKind::Exec(s)));
                }
                3 => {
                    let i = insert(r, &mut p, 2, false);
                    ops.push(op(OpKind::Insert(i)));
                }
                _ => {
                    let s = simple_script(r, &mut p);
                    let m = mode(r);
                    let take = if m != Mode::FetchAll && r.chance(400) { Some(r.below(3) as usize) } else { None };
                    ops.push(op(OpKind::Query { script: s, mode: m, take, pause: None }));
                }
            }
        }
        ops.push(op(OpKind::Drop));
        ops.push(op(OpKind::Sleep(r.below(50))));
    }
    p.tasks.push(Task { start: Start::At(0), ops });
    p.expect.kept = true;
    p.expect.no_errors = true;
    p
}

fn c09(r: &mut Rng, seed: u64) -> Plan {
    if r.chance(60) {
        return c09_kept(r, seed);
    }
    let faults = r.chance(650);
    let mut p = pool_race(r, "C09", "books", seed, faults);
    let mut end = 0;
    if faults {
        end = outages(r, &mut p, 2, 80);
    }
    for s in &mut p.servers {
        s.hello.retain(|(n, _)| *n < 4);
    }
    if r.chance(150) {
        // everything is dropped in the midst of it
        p.scenario = "dropped pool".into();
        return p;
    }
    // a pause, so that every server is up and every socket event has happened
    p.tasks.push(Task {
        start: Start::After,
        ops: vec![op(OpKind::Sleep(end + 20_000)), op(OpKind::Rest), op(OpKind::Probe), op(OpKind::Sleep(1000)), op(OpKind::Rest)],
    });
    p.expect.at_rest = true;
    p
}

fn c10(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.pooled = r.chance(600);
    cfg.max = 1;
    cfg.min = 1;
    cfg.spurious = 0;
    cfg.ping_before = r.chance(700);
    cfg.send_retries = 0;
    let t = |r: &mut Rng| r.pick_c(&[1, 2, 10, 50, 137, 500, 999, 1000, 5000]);
    cfg.ping_ms = t(r).max(10);
    cfg.conn_ms = t(r).max(10);
    cfg.query_ms = t(r).max(10);
    cfg.exec_ms = if r.chance(250) { None } else { Some(t(r).max(2)) };
    cfg.insert_ms = if r.chance(250) { None } else { Some(t(r).max(2)) };
    cfg.net = quiet_net();
    cfg.net.frag = r.pick_c(&[0, 1, 2]);
    cfg.net.latency = r.pick_c(&[0, 0, 1]);
    cfg.net.jitter = r.pick_c(&[0, 0, 5]);
    cfg.chunk = r.pick_c(&[2, 1_048_576]);
    let mut srv = server(r);
    srv.delay = 0;
    // around the configured values and far away from them
    let near = |r: &mut Rng, t: u64| match r.below(6) {
        0 => 0,
        1 => t.saturating_sub(r.range(2, 10)),
        2 => t + r.range(2, 10),
        3 => t * 3 + 5,
        4 => t / 2,
        _ => 900_000,
    };
    let mut p = plan("C10", "timeouts", seed, cfg, vec![]);
    let c = p.cfg.clone();
    // how long "without limit" may have to be: minutes, a day, a month
    let long = r.pick_c(&[400_000, 30_000_000, 1_000_000_000]);
    if r.chance(300) {
        let b = if r.chance(300) { Break::Silent } else { Break::Delay(near(r, c.conn_ms)) };
        srv.hello.push((0, b));
    }
    if r.chance(120) {
        srv.down = Some(r.pick_c(&[Down::Dead, Down::Hang, Down::Partition]));
    }
    if r.chance(300) {
        let k = r.below(3) as usize;
        let b = if r.chance(300) { Break::Silent } else { Break::Delay(near(r, c.ping_ms)) };
        srv.pong.push((k, b));
    }
    let mut ops = vec![op(OpKind::Get)];
    for _ in 0..r.range(1, 2) {
        match r.below(5) {
            0 => ops.push(op(OpKind::Ping)),
            1 => {
                let rows = r.range(1, 5) as usize;
                let i = insert(r, &mut p, rows, false);
                let t = c.insert_ms.unwrap_or(long);
                p.inserts[i].delay = near(r, t) / 2;
                if r.chance(200) && c.insert_ms.is_some() {
                    let f = match r.below(4) {
                        0 => InsFail::CloseAtQuery(CutKind::Silent),
                        1 => InsFail::CloseAtEnd(CutKind::Silent),
                        2 => InsFail::CutHeader(r.range(1, 30) as usize, CutKind::Silent),
                        _ => InsFail::CloseInData(r.range(1, 20) as usize, CutKind::Silent),
                    };
                    p.inserts[i].fail = Some((0, f));
                }
                ops.push(op(OpKind::Insert(i)));
            }
            k => {
                let exec = k == 2;
                let id = p.scripts.len();
                let cols = small_columns(r);
                let b = r.range(1, 3) as usize;
                let mut steps = rows_steps(r, b, 3, 0);
                let t = if exec { c.exec_ms } else { Some(c.query_ms) };
                let at = r.idx(steps.len());
                if t.is_some() && r.chance(250) {
                    steps.truncate(at);
                    steps.push(Step::Stall);
                } else {
                    let d = near(r, t.unwrap_or(long));
                    if d > 0 {
                        steps.insert(at, Step::Delay(d));
                    }
                }
                let s = script(r, id, cols, steps);
                p.scripts.push(s);
                ops.push(op(if exec { OpKind::Exec(id) } else { query(id, Mode::FetchAll) }));
            }
        }
        if r.chance(600) {
            ops.push(op(OpKind::Drop));
            ops.push(op(OpKind::Sleep(1_000_000)));
            ops.push(op(OpKind::Get));
        }
    }
    if r.chance(150) {
        // the network goes away in between
        let at = r.range(1, 30);
        if p.cfg.exec_ms.is_some() && p.cfg.insert_ms.is_some() {
            p.faults.push((at, Fault::Down(0, r.pick_c(&[Down::Dead, Down::Partition, Down::Hang]))));
        } else {
            // who waits without limit gets the reply in the end
            p.faults.push((at, Fault::Down(0, r.pick_c(&[Down::Partition, Down::Hang]))));
            p.faults.push((at + 3_000_000, Fault::Up(0)));
        }
    }
    p.servers = vec![srv];
    p.tasks.push(Task { start: Start::At(0), ops });
    p.horizon = 20_000_000_000;
    p.expect.timeouts = true;
    p
}

fn c11(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.pooled = r.chance(600);
    cfg.max = r.range(1, 4) as usize;
    cfg.min = cfg.max;
    cfg.spurious = 0;
    cfg.ping_before = true;
    cfg.send_retries = if r.chance(120) { r.range(5, 40) } else { r.below(5) } as usize;
    cfg.retry_ms = r.pick_c(&[1, 20, 100, 1000, 5000]);
    cfg.ping_ms = r.pick_c(&[20, 100, 500]);
    cfg.conn_ms = r.pick_c(&[50, 100, 500]);
    cfg.net = quiet_net();
    cfg.net.latency = r.pick_c(&[0, 1, 2]);
    let srv = server(r);
    let mut p = plan("C11", "outage", seed, cfg, vec![srv]);
    // fill the idle list with connections that will go stale
    let extra = if p.cfg.pooled { r.below(p.cfg.max as u64) } else { 0 };
    for _ in 0..extra {
        p.tasks.push(Task { start: Start::At(0), ops: vec![op(OpKind::Get), op(OpKind::Sleep(200)), op(OpKind::Drop)] });
    }
    let mut ops = vec![op(OpKind::Get)];
    if r.chance(500) {
        let s = simple_script(r, &mut p);
        let m = mode(r);
        ops.push(op(query(s, m)));
    }
    ops.push(op(OpKind::Sleep(20_000)));
    for _ in 0..r.range(1, 2) {
        match r.below(4) {
            0 => {
                let s = exec_script(r, &mut p);
                ops.push(op(OpKind::Exec(s)));
            }
            1 => {
                let i = insert(r, &mut p, 2, false);
                ops.push(op(OpKind::Insert(i)));
            }
            2 => ops.push(op(OpKind::Check)),
            _ => {
                let s = simple_script(r, &mut p);
                let m = mode(r);
                ops.push(op(query(s, m)));
            }
        }
        if r.chance(300) {
            ops.push(op(OpKind::Sleep(r.range(1, 3000))));
        }
    }
    p.tasks.push(Task { start: Start::At(0), ops });
    // the outage begins while the handle is unused
    let t0 = r.range(10_000, 15_000);
    let c = p.cfg.clone();
    match r.below(7) {
        6 => p.faults.push((t0, Fault::Farewell(0))),
        0 => p.faults.push((t0, Fault::CloseAll(0))),
        1 => p.faults.push((t0, Fault::ResetAll(0))),
        _ => {
            let d = r.pick_c(&[Down::Crash, Down::Crash, Down::Dead, Down::Refuse, Down::Deaf]);
            if d == Down::Refuse {
                p.faults.push((t0, Fault::CloseAll(0)));
            }
            p.faults.push((t0, Fault::Down(0, d)));
            if r.chance(650) {
                // somewhere in the retry window, or after it
                let window = c.ping_ms + (c.send_retries as u64 + 1) * (c.conn_ms + c.retry_ms);
                p.faults.push((20_000 + r.below(window * 3 / 2 + 10), Fault::Up(0)));
            }
        }
    }
    p.expect.retry = true;
    p
}

/// Where the hosts listen.
fn ports(r: &mut Rng, cfg: &mut Cfg) {
    let names = !cfg.hosts[0].name.is_empty();
    if r.chance(200) && !names {
        cfg.one_machine = true;
        for (i, h) in cfg.hosts.iter_mut().enumerate() {
            h.port = 9001 + i as u16;
        }
    } else if r.chance(300) {
        for h in &mut cfg.hosts {
            h.port = r.pick_c(&[9000, 9001, 9440, 65535, 1]);
        }
    }
    if cfg.via_url && r.chance(200) && cfg.hosts[0].port == 9000 {
        cfg.hosts[0].port = 0;
    }
}

fn c12(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    let names = r.chance(450);
    let hosts = if names { r.range(1, 3) } else { r.range(2, 4) } as usize;
    cfg.pooled = true;
    cfg.max = r.range(1, 6) as usize;
    cfg.min = r.pick_c(&[0, 0, cfg.max]);
    cfg.ping_before = true;
    cfg.send_retries = r.below(3) as usize;
    cfg.retry_ms = 10;
    cfg.conn_ms = r.pick_c(&[100, 300]);
    cfg.ping_ms = 200;
    cfg.net = quiet_net();
    cfg.net.jitter = r.pick_c(&[0, 5]);
    let concurrent = r.chance(500);
    if concurrent && r.chance(700) {
        threads(r, &mut cfg);
        cfg.park = 0;
    }
    let mut servers = vec![];
    cfg.hosts = vec![];
    for h in 0..hosts {
        let n = if names { r.range(1, 4) as usize } else { 1 };
        let addrs: Vec<usize> = (0..n).map(|i| servers.len() + i).collect();
        for _ in 0..n {
            let mut s = server(r);
            s.revision = 54429;
            s.tz = "UTC".into();
            s.delay = 0;
            if r.chance(350) {
                s.down = Some(r.pick_c(&[Down::Crash, Down::Refuse, Down::Dead, Down::Partition]));
            }
            servers.push(s);
        }
        let mut host = Host::new(0);
        if names {
            host.name = format!("host{h}.test");
        }
        host.addrs = addrs;
        cfg.hosts.push(host);
    }
    ports(r, &mut cfg);
    let mut p = plan("C12", if names { "names" } else { "rotation" }, seed, cfg, servers);
    let tasks = if concurrent { r.range(2, 4) } else { 1 };
    for _ in 0..tasks {
        let mut ops = vec![];
        for _ in 0..r.range(2, 8) {
            ops.push(op(OpKind::Get));
            if r.chance(300) {
                let s = simple_script(r, &mut p);
                let m = mode(r);
                ops.push(op(query(s, m)));
            }
            if r.chance(300) {
                ops.push(op(OpKind::Sleep(r.below(20))));
            }
            ops.push(op(OpKind::Drop));
        }
        p.tasks.push(Task { start: Start::At(r.below(5)), ops });
    }
    if !names {
        outages(r, &mut p, 1, 100);
    }
    p.expect.rotation = true;
    p
}

fn c13(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.net = wild_net(r);
    cfg.user = r.pick_c(&["default", "alice", "böb", "u@x:y/z", "a b"]).into();
    cfg.pass = r.pick_c(&["", "secret", "p%40ss", "p@ss:w/rd?&=#", "ключ"]).into();
    cfg.db = r.pick_c(&["default", "db1", "my_db", "my db", "база", "a%20b", "a/b?c#d"]).into();
    cfg.nodelay = r.chance(500);
    if r.chance(300) {
        // everything as the documentation says it is by default
        cfg.via_url = true;
        cfg.url_full = false;
        cfg.pooled = true;
        cfg.min = 10;
        cfg.max = 20;
        cfg.nodelay = true;
        cfg.ping_before = true;
        cfg.send_retries = 3;
        cfg.retry_ms = 5000;
        cfg.ping_ms = 500;
        cfg.conn_ms = 500;
        cfg.query_ms = 180_000;
        cfg.insert_ms = Some(180_000);
        cfg.exec_ms = Some(180_000);
        cfg.compression = r.chance(500);
        cfg.net.jitter = cfg.net.jitter.min(3);
        cfg.net.window = cfg.net.window.max(700);
    }
    let all = ["max_threads", "max_block_size", "join_use_nulls", "readonly", "log_comment", "totals_auto_threshold"];
    for name in all.iter() {
        if r.chance(250) {
            let v = if cfg.via_url {
                SetVal::S(r.pick_c(&["1", "", "a b", "x&y=z", "ü", "0.5", "a%20b", "1+1"]).into())
            } else {
                match r.below(4) {
                    0 => SetVal::S(r.pick_c(&["1", "", "long text, 'quoted'", "ü"]).into()),
                    1 => SetVal::B(r.chance(500)),
                    2 => SetVal::U(r.pick_c(&[0, 1, 127, 128, 65536, u64::MAX])),
                    _ => SetVal::F(r.pick_c(&[0.5, -1.25, 3.0, 0.1, 1e-7, 1e300, -0.0, 16777217.0, 0.30000000000000004])),
                }
            };
            cfg.settings.push((name.to_string(), v, r.chance(500)));
        }
    }
    ports(r, &mut cfg);
    let srv = server(r);
    let mut p = plan("C13", "requests", seed, cfg, vec![srv]);
    p.cfg.chunk = r.pick_c(&[1, 3, 1_048_576]);
    let tasks = if p.cfg.pooled { r.range(1, 2) } else { 1 };
    let abandon = r.pick_c(&[0, 300, 600]);
    for _ in 0..tasks {
        let n = r.range(1, 6);
        let mut ops = mixed_ops(r, &mut p, n, abandon, abandon > 0);
        ops.push(op(OpKind::Drop));
        p.tasks.push(Task { start: Start::At(0), ops });
    }
    if abandon > 0 && r.chance(300) && p.cfg.url_full {
        p.cfg.query_ms = r.range(5, 60);
        for s in &mut p.scripts {
            s.steps.retain(|x| !matches!(x, Step::Raw(_)));
        }
        p.cfg.exec_ms = Some(r.range(5, 60));
        p.cfg.insert_ms = Some(r.range(5, 60));
    }
    p
}

fn c14(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.max = 1;
    cfg.min = 1;
    cfg.net = wild_net(r);
    cfg.net.window = 1 << 20;
    cfg.spurious = 0;
    if r.chance(200) {
        cfg.workers = 2;
        cfg.preempt = 100;
    }
    let srv = server(r);
    let mut p = plan("C14", "prompt delivery", seed, cfg, vec![srv]);
    let mut ops = vec![op(OpKind::Get)];
    for _ in 0..r.range(1, 3) {
        match r.below(8) {
            0 => ops.push(op(OpKind::Ping)),
            1 => {
                let s = exec_script(r, &mut p);
                let at = r.idx(p.scripts[s].steps.len());
                p.scripts[s].steps.insert(at, Step::Delay(r.range(1, 500)));
                ops.push(op(OpKind::Exec(s)));
            }
            2 => {
                p.cfg.chunk = 3;
                let rows = r.range(1, 8) as usize;
                let i = insert(r, &mut p, rows, false);
                ops.push(op(OpKind::Insert(i)));
            }
            _ => {
                let id = p.scripts.len();
                let n = r.range(1, 3) as usize;
                let cols = if r.chance(500) { columns(r, n) } else { small_columns(r) };
                let b = r.range(1, 6) as usize;
                let d = r.pick_c(&[0, 200, 60_000]);
                let mut steps = rows_steps(r, b, 5, d);
                let mut cancel = Cancel::No;
                match r.below(5) {
                    0 => {
                        let at = r.range(1, steps.len() as u64 - 1) as usize;
                        steps.truncate(at);
                        steps.push(Step::Stall);
                        cancel = Cancel::Ms(2_000_000);
                    }
                    1 => {
                        let at = r.idx(steps.len());
                        steps.truncate(at);
                        steps.push(Step::Exception(exc(r, id)));
                    }
                    _ => {}
                }
                let s = script(r, id, cols, steps);
                p.scripts.push(s);
                let m = r.pick_c(&[Mode::Blocks, Mode::Rows, Mode::Rows, Mode::FetchAll]);
                let cancel = if m == Mode::FetchAll { Cancel::No } else { cancel };
                let pause = if m != Mode::FetchAll && r.chance(150) { Some((r.below(4) as usize, r.range(1, 400))) } else { None };
                ops.push(op_c(OpKind::Query { script: id, mode: m, take: None, pause }, cancel));
            }
        }
    }
    p.tasks.push(Task { start: Start::At(0), ops });
    p.horizon = 20_000_000;
    p.cfg.query_ms = 1_500_000;
    p.expect.prompt = true;
    p
}

fn c15(r: &mut Rng, seed: u64) -> Plan {
    let mut cfg = base_cfg(r);
    cfg.pooled = r.chance(700);
    cfg.max = r.range(1, 3) as usize;
    cfg.min = r.range(0, cfg.max as u64) as usize;
    cfg.ping_before = r.chance(800);
    cfg.send_retries = r.below(4) as usize;
    cfg.retry_ms = r.range(1, 60);
    cfg.ping_ms = r.range(20, 200);
    cfg.conn_ms = r.range(50, 300);
    cfg.query_ms = r.pick_c(&[100, 1000, 5000]);
    cfg.exec_ms = Some(r.pick_c(&[100, 1000, 5000]));
    cfg.insert_ms = Some(r.pick_c(&[100, 1000, 5000]));
    cfg.chunk = r.pick_c(&[1, 2, 1_048_576]);
    cfg.net = wild_net(r);
    cfg.net.window = cfg.net.window.max(700);
    if r.chance(300) {
        threads(r, &mut cfg);
    }
    let hosts = r.pick_c(&[1, 1, 2]);
    cfg.hosts = (0..hosts).map(Host::new).collect();
    let mut srv: Vec<Server> = (0..hosts).map(|_| server(r)).collect();
    let (tz, rev) = (srv[0].tz.clone(), srv[0].revision);
    for s in &mut srv {
        s.tz = tz.clone();
        s.revision = rev;
    }
    let mut p = plan("C15", "at most once", seed, cfg, srv);
    let tasks = if p.cfg.pooled { r.range(1, 3) } else { 1 };
    for _ in 0..tasks {
        let n = r.range(1, 5);
        let mut ops = mixed_ops(r, &mut p, n, 200, true);
        for o in &mut ops {
            match o.kind {
                OpKind::Query { script, .. } | OpKind::Exec(script) => {
                    if r.chance(250) {
                        p.scripts[script].cut =
                            Some((r.below(80) as usize, r.pick(&[CutKind::Fin, CutKind::Rst, CutKind::Silent]).clone()));
                    }
                    if o.cancel == Cancel::No && matches!(o.kind, OpKind::Query { .. }) {
                        o.cancel = Cancel::Ms(8_000);
                    }
                }
                OpKind::Insert(i) => {
                    if r.chance(300) {
                        let how = r.pick(&[CutKind::Fin, CutKind::Rst, CutKind::Silent]).clone();
                        let f = match r.below(4) {
                            0 => InsFail::CloseAtQuery(how),
                            1 => InsFail::CloseInData(r.range(1, 40) as usize, how),
                            2 => InsFail::CloseAtEnd(how),
                            _ => InsFail::CutHeader(r.range(0, 40) as usize, how),
                        };
                        p.inserts[i].fail = Some((r.below(3) as usize, f));
                    }
                }
                _ => {}
            }
        }
        ops.push(op(OpKind::Drop));
        p.tasks.push(Task { start: Start::At(r.below(20)), ops });
    }
    outages(r, &mut p, 2, 150);
    p
}
