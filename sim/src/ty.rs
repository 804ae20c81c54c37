//! Column types and values of the model, their wire format and their names. Independent of the
//! code under test: the model server encodes and decodes with this.
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ty {
    Bool,
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
    F32,
    F64,
    Str,
    Fixed(usize),
    Date,
    DateTime(Option<String>),
    DateTime64(u32, Option<String>),
    V4,
    V6,
    Uuid,
    Dec(u8, u8),
    Enum8(Vec<(String, i8)>),
    Enum16(Vec<(String, i16)>),
    Nullable(Box<Ty>),
    Array(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Low(Box<Ty>),
    Agg(String, Box<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(u32),
    F64(u64),
    Bytes(Vec<u8>),
    Date(u16),
    DateTime(u32),
    DateTime64(i64, u32),
    V4(u32),
    V6([u8; 16]),
    Uuid([u8; 16]),
    Dec(i64, u8),
    Enum8(i8),
    Enum16(i16),
    Array(Vec<Val>),
    /// sorted by key
    Map(Vec<(Val, Val)>),
}

impl Ty {
    pub fn name(&self) -> String {
        match self {
            Ty::Bool => "Bool".into(),
            Ty::U8 => "UInt8".into(),
            Ty::U16 => "UInt16".into(),
            Ty::U32 => "UInt32".into(),
            Ty::U64 => "UInt64".into(),
            Ty::U128 => "UInt128".into(),
            Ty::I8 => "Int8".into(),
            Ty::I16 => "Int16".into(),
            Ty::I32 => "Int32".into(),
            Ty::I64 => "Int64".into(),
            Ty::I128 => "Int128".into(),
            Ty::F32 => "Float32".into(),
            Ty::F64 => "Float64".into(),
            Ty::Str => "String".into(),
            Ty::Fixed(n) => format!("FixedString({n})"),
            Ty::Date => "Date".into(),
            Ty::DateTime(None) => "DateTime".into(),
            Ty::DateTime(Some(tz)) => format!("DateTime('{tz}')"),
            Ty::DateTime64(p, None) => format!("DateTime64({p})"),
            Ty::DateTime64(p, Some(tz)) => format!("DateTime64({p}, '{tz}')"),
            Ty::V4 => "IPv4".into(),
            Ty::V6 => "IPv6".into(),
            Ty::Uuid => "UUID".into(),
            Ty::Dec(9, s) if s % 3 == 1 => format!("Decimal32({s})"),
            Ty::Dec(18, s) if s % 3 == 1 => format!("Decimal64({s})"),
            Ty::Dec(p, s) => format!("Decimal({p}, {s})"),
            Ty::Enum8(v) => {
                let v: Vec<_> = v.iter().map(|(n, i)| format!("'{}' = {i}", quote(n))).collect();
                format!("Enum8({})", v.join(", "))
            }
            Ty::Enum16(v) => {
                let v: Vec<_> = v.iter().map(|(n, i)| format!("'{}' = {i}", quote(n))).collect();
                format!("Enum16({})", v.join(", "))
            }
            Ty::Nullable(t) => format!("Nullable({})", t.name()),
            Ty::Array(t) => format!("Array({})", t.name()),
            Ty::Map(k, v) => format!("Map({}, {})", k.name(), v.name()),
            Ty::Low(t) => format!("LowCardinality({})", t.name()),
            Ty::Agg(f, t) => format!("SimpleAggregateFunction({f}, {})", t.name()),
        }
    }

    /// Parses a type name (as sent by the client in data blocks).
    pub fn parse(s: &str) -> Option<Ty> {
        let s = s.trim();
        let simple = match s {
            "Bool" => Ty::Bool,
            "UInt8" => Ty::U8,
            "UInt16" => Ty::U16,
            "UInt32" => Ty::U32,
            "UInt64" => Ty::U64,
            "UInt128" => Ty::U128,
            "Int8" => Ty::I8,
            "Int16" => Ty::I16,
            "Int32" => Ty::I32,
            "Int64" => Ty::I64,
            "Int128" => Ty::I128,
            "Float32" => Ty::F32,
            "Float64" => Ty::F64,
            "String" => Ty::Str,
            "Date" => Ty::Date,
            "DateTime" => Ty::DateTime(None),
            "IPv4" => Ty::V4,
            "IPv6" => Ty::V6,
            "UUID" => Ty::Uuid,
            _ => {
                let open = s.find('(')?;
                if !s.ends_with(')') {
                    return None;
                }
                let args = split_args(&s[open + 1..s.len() - 1]);
                let unq = |x: &str| x.trim().trim_matches('\'').to_string();
                return Some(match &s[..open] {
                    "FixedString" => Ty::Fixed(args[0].trim().parse().ok()?),
                    "DateTime" => Ty::DateTime(Some(unq(&args[0]))),
                    "DateTime64" => {
                        Ty::DateTime64(args[0].trim().parse().ok()?, args.get(1).map(|x| unq(x)))
                    }
                    "Decimal" => Ty::Dec(args[0].trim().parse().ok()?, args.get(1)?.trim().parse().ok()?),
                    "Decimal32" => Ty::Dec(9, args[0].trim().parse().ok()?),
                    "Decimal64" => Ty::Dec(18, args[0].trim().parse().ok()?),
                    "Nullable" => Ty::Nullable(Box::new(Ty::parse(&args[0])?)),
                    "Array" => Ty::Array(Box::new(Ty::parse(&args[0])?)),
                    "LowCardinality" => Ty::Low(Box::new(Ty::parse(&args[0])?)),
                    "Map" => Ty::Map(Box::new(Ty::parse(&args[0])?), Box::new(Ty::parse(args.get(1)?)?)),
                    "SimpleAggregateFunction" => {
                        Ty::Agg(args[0].trim().to_string(), Box::new(Ty::parse(args.get(1)?)?))
                    }
                    "Enum8" => Ty::Enum8(enum_items(&args)?.into_iter().map(|(n, v)| (n, v as i8)).collect()),
                    "Enum16" => Ty::Enum16(enum_items(&args)?),
                    _ => return None,
                });
            }
        };
        Some(simple)
    }

    /// The same type with time zones removed (the client does not echo them).
    pub fn no_tz(&self) -> Ty {
        match self {
            Ty::DateTime(_) => Ty::DateTime(None),
            Ty::DateTime64(p, _) => Ty::DateTime64(*p, None),
            Ty::Nullable(t) => Ty::Nullable(Box::new(t.no_tz())),
            Ty::Array(t) => Ty::Array(Box::new(t.no_tz())),
            Ty::Low(t) => Ty::Low(Box::new(t.no_tz())),
            Ty::Agg(f, t) => Ty::Agg(f.clone(), Box::new(t.no_tz())),
            Ty::Map(k, v) => Ty::Map(Box::new(k.no_tz()), Box::new(v.no_tz())),
            t => t.clone(),
        }
    }

    /// A value that depends only on (seed, row).
    pub fn value(&self, seed: u64, row: usize) -> Val {
        let mut r = Rng::new(mix(seed ^ mix(row as u64 + 1)));
        let mut v = self.gen(&mut r, 0);
        if seed & LONG != 0 {
            if self.only_strings() {
                stretch(&mut v);
            }
            if let (Ty::Array(t), Val::Array(a)) = (self, &mut v) {
                // long arrays of small values
                if t.tiny() && r.chance(60) {
                    let n = if r.chance(200) { r.range(30_000, 70_000) } else { r.range(200, 3000) };
                    a.extend((0..n).map(|_| t.gen(&mut r, 1)));
                }
            }
        }
        if seed & DISTINCT != 0 {
            match (self.plain(), &mut v) {
                (Ty::Str, Val::Bytes(b)) => b.extend(format!("{row}").bytes()),
                (Ty::Fixed(n), Val::Bytes(b)) if *n > 5 => *b = format!("{row:0w$}", w = *n).into_bytes(),
                (Ty::U32, Val::U32(x)) => *x = row as u32 + 1,
                (Ty::I64, Val::I64(x)) => *x = -1 - row as i64,
                _ => {}
            }
        }
        v
    }

    fn plain(&self) -> &Ty {
        match self {
            Ty::Low(t) => t,
            t => t,
        }
    }

    /// Whether all values of a column may be made different ones.
    pub fn enumerable(&self) -> bool {
        match self.plain() {
            Ty::Str | Ty::U32 | Ty::I64 => true,
            Ty::Fixed(n) => *n > 5,
            _ => false,
        }
    }

    pub fn tiny(&self) -> bool {
        match self {
            Ty::Bool | Ty::U8 | Ty::I8 | Ty::U16 | Ty::I16 | Ty::Date => true,
            Ty::Nullable(t) => t.tiny(),
            _ => false,
        }
    }

    /// Whether columns of this type may be marked LONG.
    pub fn can_grow(&self) -> bool {
        self.only_strings() || matches!(self, Ty::Array(t) if t.tiny())
    }

    /// Whether all values within are strings of any length.
    pub fn only_strings(&self) -> bool {
        match self {
            Ty::Str => true,
            Ty::Nullable(t) | Ty::Array(t) | Ty::Low(t) => t.only_strings(),
            _ => false,
        }
    }

    fn gen(&self, r: &mut Rng, depth: u32) -> Val {
        // a mix of edge values and arbitrary ones
        let word = |r: &mut Rng| -> u64 {
            match r.below(8) {
                0 => 0,
                1 => u64::MAX,
                2 => 1 << r.below(64),
                3 => (1u64 << r.below(63)).wrapping_sub(1),
                4 => r.below(256),
                _ => r.next(),
            }
        };
        match self {
            Ty::Bool => Val::Bool(r.chance(500)),
            Ty::U8 => Val::U8(word(r) as u8),
            Ty::U16 => Val::U16(word(r) as u16),
            Ty::U32 => Val::U32(word(r) as u32),
            Ty::U64 => Val::U64(word(r)),
            Ty::U128 => Val::U128((word(r) as u128) << 64 | word(r) as u128),
            Ty::I8 => Val::I8(word(r) as i8),
            Ty::I16 => Val::I16(word(r) as i16),
            Ty::I32 => Val::I32(word(r) as i32),
            Ty::I64 => Val::I64(word(r) as i64),
            Ty::I128 => Val::I128(((word(r) as u128) << 64 | word(r) as u128) as i128),
            Ty::F32 => {
                let v = match r.below(4) {
                    0 => 0.0f32,
                    1 => -1.5e-30,
                    2 => f32::MAX,
                    _ => r.next() as i32 as f32 / 1000.0,
                };
                Val::F32(v.to_bits())
            }
            Ty::F64 => {
                let v = match r.below(4) {
                    0 => -0.0f64,
                    1 => 1.5e-300,
                    2 => f64::MIN,
                    _ => r.next() as i64 as f64 / 1000.0,
                };
                Val::F64(v.to_bits())
            }
            Ty::Str => Val::Bytes(if depth == 0 && r.chance(60) { gen_bytes(r) } else { gen_str(r) }),
            Ty::Fixed(n) => {
                let mut s: Vec<u8> = (0..*n).map(|_| b'a' + r.below(26) as u8).collect();
                if depth == 0 && r.chance(200) {
                    for b in &mut s {
                        *b = r.below(256) as u8;
                    }
                }
                if r.chance(300) {
                    let k = r.idx(n + 1);
                    for b in &mut s[k..] {
                        *b = 0;
                    }
                }
                Val::Bytes(s)
            }
            Ty::Date => Val::Date(match r.below(6) {
                0 => 0,
                1 => r.below(20000) as u16,
                2 => u16::MAX - r.below(3) as u16,
                _ => r.below(65536) as u16,
            }),
            Ty::DateTime(_) => Val::DateTime(match r.below(5) {
                0 => 0,
                1 => u32::MAX,
                2 => r.below(90_000) as u32,
                _ => r.below(1 << 32) as u32,
            }),
            Ty::DateTime64(p, _) => {
                let scale = 10i64.pow(*p);
                // 1900..2299, or what 64-bit nanoseconds can express
                let (lo, hi) = (-2_208_988_800i64, if *p == 9 { 9_223_372_035i64 } else { 10_413_791_999 });
                let secs = match r.below(8) {
                    0 => 0,
                    1 => lo,
                    2 => hi,
                    3 => -1,
                    4 => -(r.below(2_208_988_800) as i64),
                    _ => lo + r.below((hi - lo) as u64) as i64,
                };
                let frac = match r.below(6) {
                    0 => 0,
                    1 => scale - 1,
                    _ => r.below(scale as u64) as i64,
                };
                Val::DateTime64(secs * scale + frac, *p)
            }
            Ty::V4 => Val::V4(word(r) as u32),
            Ty::V6 => {
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&word(r).to_le_bytes());
                b[8..].copy_from_slice(&word(r).to_le_bytes());
                Val::V6(b)
            }
            Ty::Uuid => {
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&r.next().to_le_bytes());
                b[8..].copy_from_slice(&word(r).to_le_bytes());
                Val::Uuid(b)
            }
            Ty::Dec(p, s) => {
                let max = 10i64.pow(*p as u32) - 1;
                let v = match r.below(5) {
                    0 => 0,
                    1 => max,
                    2 => -max,
                    3 => (r.below(100) as i64).min(max),
                    _ => r.below(max as u64) as i64 * if r.chance(500) { 1 } else { -1 },
                };
                Val::Dec(v, *s)
            }
            Ty::Enum8(v) => Val::Enum8(r.pick(v).1),
            Ty::Enum16(v) => Val::Enum16(r.pick(v).1),
            Ty::Nullable(t) => {
                if r.chance(350) {
                    Val::Null
                } else {
                    t.gen(r, depth + 1)
                }
            }
            Ty::Array(t) => {
                let n = if r.chance(250) { 0 } else { r.below(if depth == 0 { 5 } else { 4 }) };
                Val::Array((0..n).map(|_| t.gen(r, depth + 1)).collect())
            }
            Ty::Map(k, v) => {
                let n = if r.chance(250) { 0 } else { r.below(4) };
                let mut m = std::collections::BTreeMap::new();
                for _ in 0..n {
                    m.insert(k.gen(r, depth + 1), v.gen(r, depth + 1));
                }
                Val::Map(m.into_iter().collect())
            }
            Ty::Low(t) => {
                // few distinct values, and many
                let mut q = Rng::new(if r.chance(500) { r.below(7) } else { r.below(5000) });
                t.gen(&mut q, depth)
            }
            Ty::Agg(_, t) => t.gen(r, depth),
        }
    }

    fn default_val(&self) -> Val {
        match self {
            Ty::Bool => Val::Bool(false),
            Ty::U8 => Val::U8(0),
            Ty::U16 => Val::U16(0),
            Ty::U32 => Val::U32(0),
            Ty::U64 => Val::U64(0),
            Ty::U128 => Val::U128(0),
            Ty::I8 => Val::I8(0),
            Ty::I16 => Val::I16(0),
            Ty::I32 => Val::I32(0),
            Ty::I64 => Val::I64(0),
            Ty::I128 => Val::I128(0),
            Ty::F32 => Val::F32(0),
            Ty::F64 => Val::F64(0),
            Ty::Str => Val::Bytes(vec![]),
            Ty::Fixed(n) => Val::Bytes(vec![0; *n]),
            Ty::Date => Val::Date(0),
            Ty::DateTime(_) => Val::DateTime(0),
            Ty::DateTime64(p, _) => Val::DateTime64(0, *p),
            Ty::V4 => Val::V4(0),
            Ty::V6 => Val::V6([0; 16]),
            Ty::Uuid => Val::Uuid([0; 16]),
            Ty::Dec(_, s) => Val::Dec(0, *s),
            Ty::Enum8(v) => Val::Enum8(v[0].1),
            Ty::Enum16(v) => Val::Enum16(v[0].1),
            Ty::Nullable(_) => Val::Null,
            Ty::Array(_) => Val::Array(vec![]),
            Ty::Map(..) => Val::Map(vec![]),
            Ty::Low(t) | Ty::Agg(_, t) => t.default_val(),
        }
    }

    /// Column data of a block with at least one row.
    pub fn encode(&self, vals: &[Val], out: &mut Vec<u8>) {
        match self {
            Ty::Nullable(t) => {
                for v in vals {
                    out.push((*v == Val::Null) as u8);
                }
                let d = t.default_val();
                let inner: Vec<Val> =
                    vals.iter().map(|v| if *v == Val::Null { d.clone() } else { v.clone() }).collect();
                t.encode(&inner, out);
            }
            Ty::Array(t) => {
                let mut off = 0u64;
                let mut inner = vec![];
                for v in vals {
                    if let Val::Array(xs) = v {
                        off += xs.len() as u64;
                        inner.extend(xs.iter().cloned());
                    }
                    out.extend_from_slice(&off.to_le_bytes());
                }
                t.encode(&inner, out);
            }
            Ty::Map(kt, vt) => {
                let mut off = 0u64;
                let (mut ks, mut vs) = (vec![], vec![]);
                for v in vals {
                    if let Val::Map(xs) = v {
                        off += xs.len() as u64;
                        for (k, v) in xs {
                            ks.push(k.clone());
                            vs.push(v.clone());
                        }
                    }
                    out.extend_from_slice(&off.to_le_bytes());
                }
                kt.encode(&ks, out);
                vt.encode(&vs, out);
            }
            Ty::Low(t) => {
                out.extend_from_slice(&1u64.to_le_bytes());
                let mut dict: Vec<Val> = vec![t.default_val()];
                let mut known = std::collections::BTreeMap::from([(t.default_val(), 0)]);
                let idx: Vec<usize> = vals
                    .iter()
                    .map(|v| match known.get(v) {
                        Some(i) => *i,
                        None => {
                            dict.push(v.clone());
                            known.insert(v.clone(), dict.len() - 1);
                            dict.len() - 1
                        }
                    })
                    .collect();
                // wider indices than needed are legal: the column may be a part of a larger one
                let need: u64 = if dict.len() <= 256 { 0 } else if dict.len() <= 65536 { 1 } else { 2 };
                let kind = match (vals.len() * 5 + dict.len() * 3) % 9 {
                    k @ 1..=3 => need.max(k as u64),
                    _ => need,
                };
                out.extend_from_slice(&(0x600u64 | kind).to_le_bytes());
                out.extend_from_slice(&(dict.len() as u64).to_le_bytes());
                t.encode(&dict, out);
                out.extend_from_slice(&(vals.len() as u64).to_le_bytes());
                for i in idx {
                    match kind {
                        0 => out.push(i as u8),
                        1 => out.extend_from_slice(&(i as u16).to_le_bytes()),
                        2 => out.extend_from_slice(&(i as u32).to_le_bytes()),
                        _ => out.extend_from_slice(&(i as u64).to_le_bytes()),
                    }
                }
            }
            Ty::Agg(_, t) => t.encode(vals, out),
            _ => {
                for v in vals {
                    enc_scalar(self, v, out);
                }
            }
        }
    }

    pub fn decode(&self, rd: &mut Rd, n: usize) -> R<Vec<Val>> {
        if n > 10_000_000 {
            return bad(format!("unreasonable row count {n}"));
        }
        Ok(match self {
            Ty::Nullable(t) => {
                let mask = rd.take(n)?.to_vec();
                if mask.iter().any(|b| *b > 1) {
                    return bad("null mask with a value other than 0 or 1".into());
                }
                // the values below NULLs do not matter
                let inner = match (&**t, mask.contains(&1)) {
                    (Ty::Enum8(_), true) => {
                        let raw = Ty::I8.decode(rd, n)?;
                        raw.into_iter().map(|v| if let Val::I8(x) = v { Val::Enum8(x) } else { v }).collect()
                    }
                    (Ty::Enum16(_), true) => {
                        let raw = Ty::I16.decode(rd, n)?;
                        raw.into_iter().map(|v| if let Val::I16(x) = v { Val::Enum16(x) } else { v }).collect()
                    }
                    _ => t.decode(rd, n)?,
                };
                inner.into_iter().zip(mask).map(|(v, m)| if m == 1 { Val::Null } else { v }).collect()
            }
            Ty::Array(t) => {
                let offs = decode_offsets(rd, n)?;
                let total = offs.last().copied().unwrap_or(0);
                let mut inner = t.decode(rd, total)?.into_iter();
                let mut prev = 0;
                offs.into_iter()
                    .map(|o| {
                        let v = Val::Array(inner.by_ref().take(o - prev).collect());
                        prev = o;
                        v
                    })
                    .collect()
            }
            Ty::Map(kt, vt) => {
                let offs = decode_offsets(rd, n)?;
                let total = offs.last().copied().unwrap_or(0);
                let ks = kt.decode(rd, total)?;
                let vs = vt.decode(rd, total)?;
                let mut it = ks.into_iter().zip(vs);
                let mut prev = 0;
                offs.into_iter()
                    .map(|o| {
                        let mut m: Vec<_> = it.by_ref().take(o - prev).collect();
                        m.sort();
                        prev = o;
                        Val::Map(m)
                    })
                    .collect()
            }
            Ty::Low(t) => {
                let version = rd.u64()?;
                if version != 1 {
                    return bad(format!("LowCardinality version {version}"));
                }
                let flags = rd.u64()?;
                if flags & 0x200 == 0 {
                    return bad("LowCardinality without additional keys".into());
                }
                let nk = rd.u64()? as usize;
                let keys = t.decode(rd, nk)?;
                let rows = rd.u64()? as usize;
                if rows != n {
                    return bad(format!("LowCardinality has {rows} indices for {n} rows"));
                }
                let mut out = Vec::with_capacity(n);
                for _ in 0..n {
                    let i = match flags & 0xff {
                        0 => rd.take(1)?[0] as usize,
                        1 => u16::from_le_bytes(rd.arr()?) as usize,
                        2 => u32::from_le_bytes(rd.arr()?) as usize,
                        3 => rd.u64()? as usize,
                        k => return bad(format!("LowCardinality index type {k}")),
                    };
                    match keys.get(i) {
                        Some(v) => out.push(v.clone()),
                        None => return bad(format!("LowCardinality index {i} of {nk}")),
                    }
                }
                out
            }
            Ty::Agg(_, t) => t.decode(rd, n)?,
            _ => {
                let mut out = Vec::with_capacity(n);
                for _ in 0..n {
                    out.push(dec_scalar(self, rd)?);
                }
                out
            }
        })
    }
}

fn decode_offsets(rd: &mut Rd, n: usize) -> R<Vec<usize>> {
    let mut offs = Vec::with_capacity(n);
    let mut prev = 0u64;
    for _ in 0..n {
        let o = rd.u64()?;
        if o < prev || o > 10_000_000 {
            return bad(format!("array offsets go from {prev} to {o}"));
        }
        prev = o;
        offs.push(o as usize);
    }
    Ok(offs)
}

fn enum_items(args: &[String]) -> Option<Vec<(String, i16)>> {
    args.iter()
        .map(|a| {
            let eq = a.rfind('=')?;
            let name = a[..eq].trim();
            let name = name.strip_prefix('\'')?.strip_suffix('\'')?;
            Some((unquote(name)?, a[eq + 1..].trim().parse().ok()?))
        })
        .collect()
}

fn split_args(s: &str) -> Vec<String> {
    let (mut depth, mut quoted, mut escaped) = (0, false, false);
    let mut out = vec![String::new()];
    for c in s.chars() {
        if escaped {
            escaped = false;
            out.last_mut().unwrap().push(c);
            continue;
        }
        match c {
            '\\' if quoted => escaped = true,
            '\'' => quoted = !quoted,
            '(' if !quoted => depth += 1,
            ')' if !quoted => depth -= 1,
            ',' if !quoted && depth == 0 => {
                out.push(String::new());
                continue;
            }
            _ => {}
        }
        out.last_mut().unwrap().push(c);
    }
    out
}

fn quote(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\'', "\\'")
}

fn unquote(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        out.push(match c {
            '\\' => it.next()?,
            // the end of the text: what follows cannot be a name
            '\'' => return None,
            c => c,
        });
    }
    Some(out)
}

/// Columns with this bit in their seed have some long strings or arrays.
pub const LONG: u64 = 1 << 63;
/// In columns with this bit in their seed all values are different.
pub const DISTINCT: u64 = 1 << 62;

fn stretch(v: &mut Val) {
    match v {
        Val::Bytes(b) => {
            let h = b.iter().fold(7, |h, x| mix(h ^ *x as u64));
            if h % 6 == 0 {
                let n = if h % 90 == 0 { 20_000 } else { 6_000 };
                b.extend((0..mix(h) % n).map(|i| b'a' + (i % 23) as u8));
            }
        }
        Val::Array(a) => a.iter_mut().for_each(stretch),
        _ => {}
    }
}

/// Not (necessarily) UTF-8.
fn gen_bytes(r: &mut Rng) -> Vec<u8> {
    (0..r.below(12)).map(|_| r.below(256) as u8).collect()
}

pub fn gen_str(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1 => 127 + r.below(4),
        2 => 300,
        _ => r.below(14),
    };
    let alpha: Vec<char> = "abcxyz019 _%'\"\\\n\0éß日🦀".chars().collect();
    let mut s = String::new();
    for _ in 0..n {
        s.push(*r.pick(&alpha));
    }
    s.into_bytes()
}

fn enc_scalar(t: &Ty, v: &Val, out: &mut Vec<u8>) {
    match (t, v) {
        (_, Val::Bool(x)) => out.push(*x as u8),
        (_, Val::U8(x)) => out.push(*x),
        (_, Val::U16(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::U32(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::U64(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::U128(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::I8(x)) => out.push(*x as u8),
        (_, Val::I16(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::I32(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::I64(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::I128(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::F32(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::F64(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (Ty::Fixed(_), Val::Bytes(b)) => out.extend_from_slice(b),
        (_, Val::Bytes(b)) => {
            put_uvarint(out, b.len() as u64);
            out.extend_from_slice(b);
        }
        (_, Val::Date(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::DateTime(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::DateTime64(x, _)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::V4(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::V6(x)) => out.extend_from_slice(x),
        (_, Val::Uuid(x)) => {
            // two 64-bit halves, each little endian
            out.extend(x[..8].iter().rev());
            out.extend(x[8..].iter().rev());
        }
        (Ty::Dec(p, _), Val::Dec(x, _)) => {
            if *p <= 9 {
                out.extend_from_slice(&(*x as i32).to_le_bytes())
            } else {
                out.extend_from_slice(&x.to_le_bytes())
            }
        }
        (_, Val::Enum8(x)) => out.push(*x as u8),
        (_, Val::Enum16(x)) => out.extend_from_slice(&x.to_le_bytes()),
        _ => panic!("harness: cannot encode {v:?} as {t:?}"),
    }
}

fn dec_scalar(t: &Ty, rd: &mut Rd) -> R<Val> {
    Ok(match t {
        Ty::Bool => match rd.take(1)?[0] {
            0 => Val::Bool(false),
            1 => Val::Bool(true),
            b => return bad(format!("Bool with value {b}")),
        },
        Ty::U8 => Val::U8(rd.take(1)?[0]),
        Ty::U16 => Val::U16(u16::from_le_bytes(rd.arr()?)),
        Ty::U32 => Val::U32(u32::from_le_bytes(rd.arr()?)),
        Ty::U64 => Val::U64(u64::from_le_bytes(rd.arr()?)),
        Ty::U128 => Val::U128(u128::from_le_bytes(rd.arr()?)),
        Ty::I8 => Val::I8(rd.take(1)?[0] as i8),
        Ty::I16 => Val::I16(i16::from_le_bytes(rd.arr()?)),
        Ty::I32 => Val::I32(i32::from_le_bytes(rd.arr()?)),
        Ty::I64 => Val::I64(i64::from_le_bytes(rd.arr()?)),
        Ty::I128 => Val::I128(i128::from_le_bytes(rd.arr()?)),
        Ty::F32 => Val::F32(u32::from_le_bytes(rd.arr()?)),
        Ty::F64 => Val::F64(u64::from_le_bytes(rd.arr()?)),
        Ty::Str => Val::Bytes(rd.bytes()?),
        Ty::Fixed(n) => Val::Bytes(rd.take(*n)?.to_vec()),
        Ty::Date => Val::Date(u16::from_le_bytes(rd.arr()?)),
        Ty::DateTime(_) => Val::DateTime(u32::from_le_bytes(rd.arr()?)),
        Ty::DateTime64(p, _) => Val::DateTime64(i64::from_le_bytes(rd.arr()?), *p),
        Ty::V4 => Val::V4(u32::from_le_bytes(rd.arr()?)),
        Ty::V6 => Val::V6(rd.arr()?),
        Ty::Uuid => {
            let mut b: [u8; 16] = rd.arr()?;
            b[..8].reverse();
            b[8..].reverse();
            Val::Uuid(b)
        }
        Ty::Dec(p, s) => {
            if *p <= 9 {
                Val::Dec(i32::from_le_bytes(rd.arr()?) as i64, *s)
            } else {
                Val::Dec(i64::from_le_bytes(rd.arr()?), *s)
            }
        }
        Ty::Enum8(items) => {
            let v = rd.take(1)?[0] as i8;
            if !items.iter().any(|(_, x)| *x == v) {
                return bad(format!("Enum8 value {v} is not in the type"));
            }
            Val::Enum8(v)
        }
        Ty::Enum16(items) => {
            let v = i16::from_le_bytes(rd.arr()?);
            if !items.iter().any(|(_, x)| *x == v) {
                return bad(format!("Enum16 value {v} is not in the type"));
            }
            Val::Enum16(v)
        }
        _ => return bad(format!("harness: cannot decode {t:?}")),
    })
}

pub fn put_uvarint(out: &mut Vec<u8>, mut x: u64) {
    while x >= 0x80 {
        out.push(x as u8 | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}
pub fn put_str(out: &mut Vec<u8>, s: &[u8]) {
    put_uvarint(out, s.len() as u64);
    out.extend_from_slice(s);
}

pub enum Stop {
    /// more bytes are needed
    More,
    Bad(String),
}
pub type R<T> = Result<T, Stop>;
pub fn bad<T>(s: String) -> R<T> {
    Err(Stop::Bad(s))
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, pos: 0 }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.pos < n {
            return Err(Stop::More);
        }
        self.pos += n;
        Ok(&self.b[self.pos - n..self.pos])
    }
    pub fn arr<const N: usize>(&mut self) -> R<[u8; N]> {
        Ok(self.take(N)?.try_into().unwrap())
    }
    pub fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.arr()?))
    }
    pub fn uvarint(&mut self) -> R<u64> {
        let (mut x, mut s) = (0u64, 0);
        loop {
            let b = self.take(1)?[0];
            if s > 63 {
                return bad("varint too long".into());
            }
            x |= ((b & 0x7f) as u64) << s;
            if b < 0x80 {
                return Ok(x);
            }
            s += 7;
        }
    }
    pub fn bytes(&mut self) -> R<Vec<u8>> {
        let n = self.uvarint()?;
        if n > 1 << 30 {
            return bad(format!("string of length {n}"));
        }
        Ok(self.take(n as usize)?.to_vec())
    }
    pub fn string(&mut self) -> R<String> {
        match String::from_utf8(self.bytes()?) {
            Ok(s) => Ok(s),
            Err(_) => bad("string is not UTF-8".into()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    /// values of row i are ty.value(seed, i)
    pub seed: u64,
}

/// A block in native format, without packet header.
pub fn encode_block(cols: &[Col], first_row: usize, rows: usize) -> Vec<u8> {
    // overflows, bucket number
    let h = cols.first().map_or(0, |c| mix(c.seed ^ 77 ^ first_row as u64));
    let mut out = vec![1, (h % 9 == 1) as u8, 2];
    out.extend_from_slice(&(if h % 7 == 1 { (h >> 40) as i32 } else { -1 }).to_le_bytes());
    out.push(0);
    put_uvarint(&mut out, cols.len() as u64);
    put_uvarint(&mut out, rows as u64);
    for c in cols {
        put_str(&mut out, c.name.as_bytes());
        put_str(&mut out, c.ty.name().as_bytes());
        if rows > 0 {
            let vals: Vec<Val> = (first_row..first_row + rows).map(|i| c.ty.value(c.seed, i)).collect();
            c.ty.encode(&vals, &mut out);
        }
    }
    out
}

pub struct DBlock {
    pub cols: Vec<(String, Ty, Vec<Val>)>,
    pub rows: usize,
}

pub fn decode_block(rd: &mut Rd) -> R<DBlock> {
    loop {
        match rd.uvarint()? {
            0 => break,
            1 => {
                rd.take(1)?;
            }
            2 => {
                rd.take(4)?;
            }
            f => return bad(format!("block info field {f}")),
        }
    }
    let nc = rd.uvarint()? as usize;
    let rows = rd.uvarint()? as usize;
    let mut cols = vec![];
    if nc > 10_000 {
        return bad(format!("{nc} columns"));
    }
    for _ in 0..nc {
        let name = rd.string()?;
        let tn = rd.string()?;
        let ty = match Ty::parse(&tn) {
            Some(t) => t,
            None => return bad(format!("unknown type {tn:?}")),
        };
        let vals = if rows > 0 { ty.decode(rd, rows)? } else { vec![] };
        cols.push((name, ty, vals));
    }
    Ok(DBlock { cols, rows })
}
