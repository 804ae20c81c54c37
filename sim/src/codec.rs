//! CityHash128 (v1.0.2, as ClickHouse uses it) and LZ4 blocks, independent of the code under test.

const K0: u64 = 0xc3a5c85c97cb3127;
const K1: u64 = 0xb492b66fbe98f273;
const K2: u64 = 0x9ae16a3b2f90404f;
const K3: u64 = 0xc949d7c7509e6557;

fn f64_(s: &[u8], at: usize) -> u64 {
    u64::from_le_bytes(s[at..at + 8].try_into().unwrap())
}
fn f32_(s: &[u8], at: usize) -> u64 {
    u32::from_le_bytes(s[at..at + 4].try_into().unwrap()) as u64
}
fn rot(v: u64, n: u32) -> u64 {
    v.rotate_right(n)
}
fn smix(v: u64) -> u64 {
    v ^ (v >> 47)
}
fn h16(lo: u64, hi: u64) -> u64 {
    const M: u64 = 0x9ddfea08eb382d69;
    let mut a = (lo ^ hi).wrapping_mul(M);
    a ^= a >> 47;
    let mut b = (hi ^ a).wrapping_mul(M);
    b ^= b >> 47;
    b.wrapping_mul(M)
}
fn h0to16(s: &[u8]) -> u64 {
    let len = s.len() as u64;
    if len > 8 {
        let a = f64_(s, 0);
        let b = f64_(s, s.len() - 8);
        return h16(a, rot(b.wrapping_add(len), len as u32)) ^ b;
    }
    if len >= 4 {
        let a = f32_(s, 0);
        return h16(len.wrapping_add(a << 3), f32_(s, s.len() - 4));
    }
    if len > 0 {
        let (a, b, c) = (s[0] as u32, s[s.len() >> 1] as u32, s[s.len() - 1] as u32);
        let y = a.wrapping_add(b << 8);
        let z = (len as u32).wrapping_add(c << 2);
        return smix((y as u64).wrapping_mul(K2) ^ (z as u64).wrapping_mul(K3)).wrapping_mul(K2);
    }
    K2
}
fn weak(w: u64, x: u64, y: u64, z: u64, mut a: u64, mut b: u64) -> (u64, u64) {
    a = a.wrapping_add(w);
    b = rot(b.wrapping_add(a).wrapping_add(z), 21);
    let c = a;
    a = a.wrapping_add(x).wrapping_add(y);
    b = b.wrapping_add(rot(a, 44));
    (a.wrapping_add(z), b.wrapping_add(c))
}
fn weak_s(s: &[u8], at: usize, a: u64, b: u64) -> (u64, u64) {
    weak(f64_(s, at), f64_(s, at + 8), f64_(s, at + 16), f64_(s, at + 24), a, b)
}
fn murmur(s: &[u8], lo: u64, hi: u64) -> (u64, u64) {
    let (mut a, mut b, mut c, mut d) = (lo, hi, 0u64, 0u64);
    let _ = (c, d);
    let mut len = s.len();
    if len <= 16 {
        a = smix(a.wrapping_mul(K1)).wrapping_mul(K1);
        c = b.wrapping_mul(K1).wrapping_add(h0to16(s));
        d = smix(a.wrapping_add(if len >= 8 { f64_(s, 0) } else { c }));
    } else {
        c = h16(f64_(s, len - 8).wrapping_add(K1), a);
        d = h16(b.wrapping_add(len as u64), c.wrapping_add(f64_(s, len - 16)));
        a = a.wrapping_add(d);
        let mut at = 0;
        loop {
            a ^= smix(f64_(s, at).wrapping_mul(K1)).wrapping_mul(K1);
            a = a.wrapping_mul(K1);
            b ^= a;
            c ^= smix(f64_(s, at + 8).wrapping_mul(K1)).wrapping_mul(K1);
            c = c.wrapping_mul(K1);
            d ^= c;
            at += 16;
            len -= 16;
            if len <= 16 {
                break;
            }
        }
    }
    a = h16(a, c);
    b = h16(d, b);
    (a ^ b, h16(b, a))
}
fn with_seed(s: &[u8], lo: u64, hi: u64) -> (u64, u64) {
    let mut len = s.len();
    if len < 128 {
        return murmur(s, lo, hi);
    }
    let (mut x, mut y) = (lo, hi);
    let mut z = (len as u64).wrapping_mul(K1);
    let mut v = (0u64, 0u64);
    let mut w = (0u64, 0u64);
    v.0 = rot(y ^ K1, 49).wrapping_mul(K1).wrapping_add(f64_(s, 0));
    v.1 = rot(v.0, 42).wrapping_mul(K1).wrapping_add(f64_(s, 8));
    w.0 = rot(y.wrapping_add(z), 35).wrapping_mul(K1).wrapping_add(x);
    w.1 = rot(x.wrapping_add(f64_(s, 88)), 53).wrapping_mul(K1);
    let mut p = 0;
    while len >= 128 {
        for _ in 0..2 {
            x = rot(x.wrapping_add(y).wrapping_add(v.0).wrapping_add(f64_(s, p + 16)), 37).wrapping_mul(K1);
            y = rot(y.wrapping_add(v.1).wrapping_add(f64_(s, p + 48)), 42).wrapping_mul(K1);
            x ^= w.1;
            y ^= v.0;
            z = rot(z ^ w.0, 33);
            v = weak_s(s, p, v.1.wrapping_mul(K1), x.wrapping_add(w.0));
            w = weak_s(s, p + 32, z.wrapping_add(w.1), y);
            std::mem::swap(&mut z, &mut x);
            p += 64;
        }
        len -= 128;
    }
    y = y.wrapping_add(rot(w.0, 37).wrapping_mul(K0).wrapping_add(z));
    x = x.wrapping_add(rot(v.0.wrapping_add(z), 49).wrapping_mul(K0));
    let mut t = 0;
    while t < len {
        t += 32;
        y = rot(y.wrapping_sub(x), 42).wrapping_mul(K0).wrapping_add(v.1);
        let at = p + len - t;
        w.0 = w.0.wrapping_add(f64_(s, at + 16));
        x = rot(x, 49).wrapping_mul(K0).wrapping_add(w.0);
        w.0 = w.0.wrapping_add(v.0);
        v = weak_s(s, at, v.0, v.1);
    }
    x = h16(x, v.0);
    y = h16(y, w.0);
    (
        h16(x.wrapping_add(v.1), w.1).wrapping_add(y),
        h16(x.wrapping_add(w.1), y.wrapping_add(v.1)),
    )
}
pub fn city128(s: &[u8]) -> (u64, u64) {
    if s.len() >= 16 {
        with_seed(&s[16..], f64_(s, 0) ^ K3, f64_(s, 8))
    } else if s.len() >= 8 {
        with_seed(
            &[],
            f64_(s, 0) ^ (s.len() as u64).wrapping_mul(K0),
            f64_(s, s.len() - 8) ^ K1,
        )
    } else {
        with_seed(s, K0, K1)
    }
}

fn lz4_len(out: &mut Vec<u8>, mut n: usize) {
    while n >= 255 {
        out.push(255);
        n -= 255;
    }
    out.push(n as u8);
}
fn lz4_seq(out: &mut Vec<u8>, lit: &[u8], m: Option<(usize, usize)>) {
    let l = lit.len().min(15);
    let k = m.map_or(0, |(_, len)| (len - 4).min(15));
    out.push(((l as u8) << 4) | k as u8);
    if l == 15 {
        lz4_len(out, lit.len() - 15);
    }
    out.extend_from_slice(lit);
    if let Some((off, len)) = m {
        out.extend_from_slice(&(off as u16).to_le_bytes());
        if k == 15 {
            lz4_len(out, len - 4 - 15);
        }
    }
}
pub fn lz4_compress(src: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut table = vec![usize::MAX; 4096];
    let n = src.len();
    let (mut i, mut anchor) = (0usize, 0usize);
    while n >= 13 && i + 12 < n {
        let w = u32::from_le_bytes(src[i..i + 4].try_into().unwrap());
        let h = (w.wrapping_mul(2654435761) >> 20) as usize;
        let cand = table[h];
        table[h] = i;
        if cand != usize::MAX && i - cand < 65535 && src[cand..cand + 4] == src[i..i + 4] {
            let mut len = 4;
            while i + len < n - 5 && src[cand + len] == src[i + len] {
                len += 1;
            }
            lz4_seq(&mut out, &src[anchor..i], Some((i - cand, len)));
            i += len;
            anchor = i;
        } else {
            i += 1;
        }
    }
    lz4_seq(&mut out, &src[anchor..], None);
    out
}
pub fn lz4_decompress(src: &[u8], size: usize) -> Result<Vec<u8>, String> {
    let mut out = Vec::with_capacity(size.min(1 << 24));
    let mut i = 0;
    let e = || "truncated LZ4 block".to_string();
    while i < src.len() {
        let t = src[i];
        i += 1;
        let mut l = (t >> 4) as usize;
        if l == 15 {
            loop {
                let b = *src.get(i).ok_or_else(e)?;
                i += 1;
                l += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        out.extend_from_slice(src.get(i..i + l).ok_or_else(e)?);
        i += l;
        if i == src.len() {
            break;
        }
        let off = u16::from_le_bytes(src.get(i..i + 2).ok_or_else(e)?.try_into().unwrap()) as usize;
        i += 2;
        let mut m = (t & 15) as usize;
        if m == 15 {
            loop {
                let b = *src.get(i).ok_or_else(e)?;
                i += 1;
                m += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        m += 4;
        if off == 0 || off > out.len() {
            return Err("bad LZ4 offset".into());
        }
        for _ in 0..m {
            let b = out[out.len() - off];
            out.push(b);
        }
    }
    if out.len() != size {
        return Err(format!("LZ4 size mismatch: {} instead of {}", out.len(), size));
    }
    Ok(out)
}

/// A ClickHouse compressed frame.
pub fn frame(data: &[u8]) -> Vec<u8> {
    let c = lz4_compress(data);
    let mut body = vec![0x82];
    body.extend_from_slice(&((c.len() + 9) as u32).to_le_bytes());
    body.extend_from_slice(&(data.len() as u32).to_le_bytes());
    body.extend_from_slice(&c);
    let (lo, hi) = city128(&body);
    let mut out = Vec::with_capacity(body.len() + 16);
    out.extend_from_slice(&lo.to_le_bytes());
    out.extend_from_slice(&hi.to_le_bytes());
    out.extend_from_slice(&body);
    out
}

pub fn selftest() {
    assert_eq!(city128(b"abc"), (0x900ff195577748fe, 0x13a9176355b20d7e));
    // the frame of a unit test of the crate, produced by a real server
    let src: &[u8] = &[
        245, 5, 222, 235, 225, 158, 59, 108, 225, 31, 65, 215, 66, 66, 36, 92, 130, 34, 0, 0, 0, 23, 0, 0, 0, 240,
        8, 1, 0, 2, 255, 255, 255, 255, 0, 1, 1, 1, 115, 6, 83, 116, 114, 105, 110, 103, 3, 97, 98, 99,
    ];
    let (lo, hi) = city128(&src[16..]);
    assert_eq!(lo.to_le_bytes(), src[..8]);
    assert_eq!(hi.to_le_bytes(), src[8..16]);
    assert_eq!(lz4_decompress(&src[25..], 23).unwrap()[..3], [1, 0, 2]);
    let mut r = crate::rng::Rng::new(7);
    for n in 0..300usize {
        let v: Vec<u8> = (0..n * 3).map(|_| (r.below(4)) as u8).collect();
        assert_eq!(lz4_decompress(&lz4_compress(&v), v.len()).unwrap(), v);
    }
}
