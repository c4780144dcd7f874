//! A reference model of bencoding, written from BEP 3 and independent of the code under test.
use crate::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Int(u64),
    Bytes(Vec<u8>),
    List(Vec<Val>),
    Dict(BTreeMap<Vec<u8>, Val>),
}

pub fn int(n: u64) -> Val {
    Val::Int(n)
}
pub fn bytes(b: impl AsRef<[u8]>) -> Val {
    Val::Bytes(b.as_ref().to_vec())
}
pub fn dict<const N: usize>(items: [(&str, Val); N]) -> Val {
    Val::Dict(items.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v)).collect())
}

pub fn enc_bytes(b: &[u8], out: &mut Vec<u8>) {
    out.extend_from_slice(b.len().to_string().as_bytes());
    out.push(b':');
    out.extend_from_slice(b);
}

impl Val {
    pub fn encode(&self) -> Vec<u8> {
        let mut out = vec![];
        self.enc(&mut out);
        out
    }

    fn enc(&self, out: &mut Vec<u8>) {
        match self {
            Val::Int(n) => out.extend_from_slice(format!("i{n}e").as_bytes()),
            Val::Bytes(b) => enc_bytes(b, out),
            Val::List(l) => {
                out.push(b'l');
                l.iter().for_each(|v| v.enc(out));
                out.push(b'e');
            }
            Val::Dict(d) => {
                out.push(b'd');
                for (k, v) in d {
                    enc_bytes(k, out);
                    v.enc(out);
                }
                out.push(b'e');
            }
        }
    }

    pub fn set(&mut self, key: &str, v: Val) {
        if let Val::Dict(d) = self {
            d.insert(key.as_bytes().to_vec(), v);
        }
    }

    pub fn del(&mut self, key: &str) {
        if let Val::Dict(d) = self {
            d.remove(key.as_bytes());
        }
    }

    pub fn get(&self, key: &str) -> Option<&Val> {
        match self {
            Val::Dict(d) => d.get(key.as_bytes()),
            _ => None,
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Val::List(l) => 1 + l.iter().map(Val::depth).max().unwrap_or(0),
            Val::Dict(d) => 1 + d.values().map(Val::depth).max().unwrap_or(0),
            _ => 0,
        }
    }
}

/// What the specification says of an input.
#[derive(Clone, Debug, PartialEq)]
pub enum Ref {
    /// Well formed: this value, and the number of bytes it takes.
    Valid(Val, usize),
    /// Truncated or malformed.
    Invalid,
    /// Uses something this client need not support or implementations differ on: any answer but a crash will do.
    Unspecified,
}

enum Stop {
    Invalid,
    Unspecified,
}

/// Nesting that any client supports; deeper may be refused.
pub const SUPPORTED_DEPTH: usize = 64;

pub fn decode(input: &[u8]) -> Ref {
    let mut at = 0;
    match dec(input, &mut at, 0) {
        Ok(v) => Ref::Valid(v, at),
        Err(Stop::Invalid) => Ref::Invalid,
        Err(Stop::Unspecified) => Ref::Unspecified,
    }
}

fn digits(s: &[u8], at: &mut usize, end: u8) -> Result<u64, Stop> {
    let start = *at;
    while s.get(*at).is_some_and(u8::is_ascii_digit) {
        *at += 1;
    }
    let d = &s[start..*at];
    if d.is_empty() || s.get(*at) != Some(&end) {
        return Err(Stop::Invalid);
    }
    *at += 1;
    if d.len() > 1 && d[0] == b'0' {
        return Err(Stop::Unspecified);
    }
    // One that no word holds has no value the program could give.
    std::str::from_utf8(d).unwrap().parse().map_err(|_| Stop::Invalid)
}

fn byte_string(s: &[u8], at: &mut usize) -> Result<Vec<u8>, Stop> {
    let n = digits(s, at, b':')?;
    let end = (*at as u64).checked_add(n).ok_or(Stop::Invalid)?;
    if end > s.len() as u64 {
        return Err(Stop::Invalid);
    }
    let v = s[*at..end as usize].to_vec();
    *at = end as usize;
    Ok(v)
}

fn dec(s: &[u8], at: &mut usize, depth: usize) -> Result<Val, Stop> {
    if depth > SUPPORTED_DEPTH {
        return Err(Stop::Unspecified);
    }
    match s.get(*at) {
        None => Err(Stop::Invalid),
        Some(b'i') => {
            *at += 1;
            if s.get(*at) == Some(&b'-') {
                return Err(Stop::Unspecified);
            }
            Ok(Val::Int(digits(s, at, b'e')?))
        }
        Some(b'0'..=b'9') => Ok(Val::Bytes(byte_string(s, at)?)),
        Some(b'l') => {
            *at += 1;
            let mut l = vec![];
            while s.get(*at) != Some(&b'e') {
                l.push(dec(s, at, depth + 1)?);
            }
            *at += 1;
            Ok(Val::List(l))
        }
        Some(b'd') => {
            *at += 1;
            let mut d = BTreeMap::new();
            while s.get(*at) != Some(&b'e') {
                if !s.get(*at).is_some_and(u8::is_ascii_digit) {
                    return Err(Stop::Invalid);
                }
                let k = byte_string(s, at)?;
                if std::str::from_utf8(&k).is_err() {
                    return Err(Stop::Unspecified);
                }
                let v = dec(s, at, depth + 1)?;
                if d.insert(k, v).is_some() {
                    return Err(Stop::Unspecified);
                }
            }
            *at += 1;
            Ok(Val::Dict(d))
        }
        Some(_) => Err(Stop::Invalid),
    }
}

/// A text: ASCII, or with characters of two to four bytes, or empty.
pub fn gen_text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let wide = r.one_in(2);
    (0..n)
        .map(|_| {
            if wide && r.one_in(2) {
                *r.pick(&['é', 'ß', 'Ж', '漢', '字', '𝄞', '🦀', '\u{7ff}', '\u{800}', '\u{ffff}'])
            } else {
                (0x20 + r.below(0x5f) as u8) as char
            }
        })
        .collect()
}

pub fn gen_int(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.below(10) as u64,
        1 => 10u64.pow(r.below(20) as u32),
        2 => u64::MAX - r.below(3) as u64,
        3 => (1u64 << r.below(64)).wrapping_sub(r.below(2) as u64),
        _ => r.u64() >> r.below(64),
    }
}

pub fn gen_val(r: &mut Rng, depth: usize) -> Val {
    match if depth == 0 { r.below(2) } else { r.below(4) } {
        0 => Val::Int(gen_int(r)),
        1 => {
            let n = match r.below(6) {
                0 => 0,
                1 => *r.pick(&[9, 10, 11, 99, 100, 101, 999, 1000]),
                _ => r.below(24),
            };
            Val::Bytes(if r.one_in(3) { gen_text(r, 12).into_bytes() } else { r.bytes(n) })
        }
        2 => Val::List((0..r.below(5)).map(|_| gen_val(r, depth - 1)).collect()),
        _ => Val::Dict(
            (0..r.below(5)).map(|_| (gen_text(r, 10).into_bytes(), gen_val(r, depth - 1))).collect(),
        ),
    }
}

/// Changes a few bytes, such that the structure is likely to suffer.
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    const BITS: &[u8] = b"ilde:0123456789-\x00\xffz";
    for _ in 0..r.range(1, 4) {
        let at = r.below(v.len() + 1);
        match r.below(7) {
            0 => v.truncate(at),
            1 if at < v.len() => v[at] = *r.pick(BITS),
            2 if at < v.len() => v[at] ^= 1 << r.below(8),
            3 => v.insert(at, *r.pick(BITS)),
            4 if at < v.len() => {
                v.remove(at);
            }
            5 => {
                let other = gen_val(r, 2).encode();
                v.splice(at..at, other);
            }
            _ => {
                let digits = edge_number(r);
                let end = *r.pick(&[b':', b'e']);
                v.splice(at..at, digits.bytes().chain([end]));
            }
        }
    }
}

/// Around where numbers stop fitting in something.
fn edge_number(r: &mut Rng) -> String {
    let near = match r.below(4) {
        0 => 1u128 << 64,
        1 => 1u128 << *r.pick(&[8, 15, 16, 31, 32, 53, 63, 65, 66, 72, 96, 120]),
        2 => 10u128.pow(r.range(17, 38) as u32),
        _ => (1u128 << 64) * r.range(2, 40) as u128,
    };
    let by = r.below(24) as u128;
    (if r.one_in(3) { near - by } else { near + by }).to_string()
}

/// A length around where fields for lengths end, or far beyond.
pub fn large(r: &mut Rng) -> usize {
    let n = *r.pick(&[9_999, 10_000, 65_535, 65_536, 65_537, 99_999, 100_000, 1 << 20, 9_999_999, 10_000_000, (1 << 24) + 1]);
    n + r.below(2)
}

/// Bytes that look like bencoding, and are mostly not.
pub fn hostile_input(r: &mut Rng) -> Vec<u8> {
    match r.below(40) {
        5..=9 => {
            let n = r.below(40);
            (0..n).map(|_| *r.pick(b"ilde:0123456789a-")).collect()
        }
        10..=13 => {
            let n = r.below(60);
            r.bytes(n)
        }
        2 => {
            // Deep, closed or not.
            let n = *r.pick(&[100, 127, 128, 129, 1000, 30_000, 500_000]);
            let unit: &[u8] = *r.pick(&[b"l".as_slice(), b"d1:a", b"ld0:", b"l1:xl"]);
            let mut v = unit.repeat(n);
            if r.one_in(2) {
                v.extend(std::iter::repeat(b'e').take(n * 2));
            }
            v
        }
        4 | 18 | 19 => {
            let pre: &[u8] = *r.pick(&[b"i".as_slice(), b"li", b"d1:ai", b"d6:lengthi"]);
            let mut v = [pre, edge_number(r).as_bytes(), b"e"].concat();
            if r.one_in(2) {
                v.push(b'e');
            }
            v
        }
        3 | 14..=17 => {
            let digits = edge_number(r);
            let pre: &[u8] = *r.pick(&[b"".as_slice(), b"l", b"d", b"d1:a", b"d4:path"]);
            let mut v = pre.to_vec();
            v.extend(digits.bytes());
            v.push(b':');
            v.extend(r.bytes(8));
            v
        }
        0 => {
            // Large and flat.
            let n = if r.one_in(40) { r.range(200_000, 600_000) } else { r.range(1000, 30_000) };
            let mut v = vec![*r.pick(b"ld")];
            for i in 0..n {
                if v[0] == b'd' {
                    enc_bytes(format!("{i:07}").as_bytes(), &mut v);
                }
                v.extend(r.pick(&[b"i0e".as_slice(), b"0:", b"le", b"de"]).iter());
            }
            if r.one_in(2) {
                v.push(b'e');
            }
            v
        }
        _ => {
            let depth = r.range(1, 5);
            let mut v = gen_val(r, depth).encode();
            mutate(r, &mut v);
            v
        }
    }
}
