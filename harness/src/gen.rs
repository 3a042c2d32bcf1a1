//! Seeded generators of payloads and values relative to a schema.
use crate::ev::*;
use crate::rng::Rng;
use crate::schema::*;

/// One dimension of the next payload or value that is to be large.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dim { Blob, Text, Packed, Pieces }
thread_local! {
    static BIG: std::cell::Cell<Option<(Dim, usize)>> = std::cell::Cell::new(None);
}
/// Sizes around the limits an implementation may have: buffers, counters, narrow integers.
pub fn set_big(rng: &mut Rng, kind: usize) {
    let around = |rng: &mut Rng, ps: &[usize]| *rng.pick(ps) + rng.below(4) - 2;
    BIG.with(|b| b.set(Some(match kind % 4 {
        0 => (Dim::Blob, around(rng, &[256, 1000, 1024, 4096, 16384, 32768, 65536, 70000])),
        1 => (Dim::Text, around(rng, &[256, 1024, 4096, 8192, 16384, 65536])),
        2 => (Dim::Packed, around(rng, &[256, 1000, 1024, 2000, 4096, 9000])),
        _ => (Dim::Pieces, around(rng, &[64, 128, 256, 512, 1000, 1024, 1100, 2048])),
    })));
}
pub fn clear_big() -> bool {
    BIG.with(|b| b.take()).is_some()
}
pub fn big_packed() -> Option<usize> { big(Dim::Packed) }
fn big(d: Dim) -> Option<usize> {
    BIG.with(|b| match b.get() {
        Some((k, n)) if k == d => { b.set(None); Some(n) }
        _ => None,
    })
}

/// Weights of the pieces a payload is put together from.
#[derive(Clone)]
pub struct Mix {
    pub known: usize,
    pub unknown: usize,
    pub mismatch: usize,
    pub packed: usize,
    pub nested: usize,
    pub invalid: usize,
    pub truncated: usize,
    pub garbage: usize,
    pub random: usize,
    /// Percentage of varints spelled with padding, of malformed packed elements, of odd strings.
    pub odd: usize,
    pub pieces: usize,
    pub depth: usize,
}
pub const VALID: Mix = Mix { known: 10, unknown: 0, mismatch: 0, packed: 0, nested: 4, invalid: 0, truncated: 0, garbage: 0, random: 0, odd: 10, pieces: 5, depth: 3 };
pub const ALL: Mix = Mix { known: 8, unknown: 4, mismatch: 3, packed: 4, nested: 4, invalid: 1, truncated: 2, garbage: 1, random: 1, odd: 15, pieces: 5, depth: 3 };
pub const SKIP: Mix = Mix { known: 6, unknown: 6, mismatch: 5, packed: 0, nested: 3, invalid: 1, truncated: 0, garbage: 0, random: 0, odd: 5, pieces: 6, depth: 2 };
pub const PACKED: Mix = Mix { known: 5, unknown: 0, mismatch: 0, packed: 10, nested: 1, invalid: 0, truncated: 0, garbage: 0, random: 0, odd: 8, pieces: 4, depth: 1 };

pub fn varint(mut x: u64) -> Vec<u8> {
    let mut out = vec![];
    while x >= 128 {
        out.push((x & 127) as u8 | 128);
        x >>= 7;
    }
    out.push(x as u8);
    out
}
/// A varint with redundant length, possibly with bits beyond 64.
pub fn padded(rng: &mut Rng, x: u64) -> Vec<u8> {
    let mut v = varint(x);
    let target = rng.range(v.len(), 10);
    if target > v.len() {
        let l = v.len() - 1;
        v[l] |= 128;
        while v.len() < target - 1 {
            v.push(128);
        }
        v.push(0);
    }
    if v.len() == 10 && rng.chance(50) {
        v[9] = (v[9] & 1) | (rng.below(64) as u8) << 1;
    }
    v
}
pub fn number64(rng: &mut Rng) -> u64 {
    match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => *rng.pick(&[127u64, 128, 16383, 16384, 255, 256]),
        3 => *rng.pick(&[0x7fff_ffffu64, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x7fff_fffe, 0xffff_fffe]),
        4 => *rng.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1]),
        5 => (rng.range(1, 300) as u64).wrapping_neg(),
        6 => (rng.next() as u32) as i32 as i64 as u64,
        7 => 1u64 << rng.below(64),
        8 => (1u64 << rng.below(64)).wrapping_sub(1),
        9 => rng.next(),
        10 => rng.next() >> rng.below(64),
        _ => rng.range(0, 300) as u64,
    }
}
pub fn fixed(rng: &mut Rng, n: usize) -> Vec<u8> {
    let x: u64 = if n == 8 {
        match rng.below(4) {
            0 => *rng.pick(&[0x7ff8_0000_0000_0000u64, 0x7ff0_0000_0000_0001, 0xfff0_0000_0000_0000, 0x8000_0000_0000_0000, 0x3ff0_0000_0000_0000, 1, 0x7ff0_0000_0000_0000]),
            _ => number64(rng),
        }
    } else {
        match rng.below(4) {
            0 => *rng.pick(&[0x7fc0_0000u64, 0x7f80_0001, 0xff80_0000, 0x8000_0000, 0x3f80_0000, 1, 0x7f80_0000]),
            _ => number64(rng),
        }
    };
    x.to_le_bytes()[..n].to_vec()
}
pub fn blob(rng: &mut Rng) -> Vec<u8> {
    if let Some(n) = big(Dim::Blob) {
        return (0..n).map(|_| rng.next() as u8).collect();
    }
    let n = match rng.below(20) { 0 => rng.range(100, 300), 1..=3 => 0, _ => rng.range(1, 8) };
    (0..n).map(|_| if rng.chance(30) { *rng.pick(&[0u8, 0x80, 0xff, 0x08, 0x0a, 0x7f]) } else { rng.next() as u8 }).collect()
}
pub fn utf8(rng: &mut Rng) -> Vec<u8> {
    if let Some(n) = big(Dim::Text) {
        // Characters of several bytes at every offset, then exactly n bytes.
        let mut s = String::new();
        let odd = rng.chance(70);
        while s.len() + 4 < n {
            s.push(if !odd { 'x' } else { *rng.pick(&['a', '\u{e9}', '\u{20ac}', '\u{1f600}']) });
        }
        while s.len() < n { s.push('z'); }
        return s.into_bytes();
    }
    let n = match rng.below(20) { 0 => rng.range(60, 140), 1..=3 => 0, _ => rng.range(1, 6) };
    let mut s = String::new();
    for _ in 0..n {
        s.push(match rng.below(6) {
            0 => *rng.pick(&['\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{feff}']),
            1 => char::from_u32(rng.range(0x80, 0x7ff) as u32).unwrap(),
            2 => char::from_u32(rng.range(0x800, 0xd7ff) as u32).unwrap(),
            3 => char::from_u32(rng.range(0x10000, 0x10ffff) as u32).unwrap(),
            _ => (rng.range(32, 126) as u8) as char,
        });
    }
    s.into_bytes()
}
/// Bytes that are not quite UTF-8.
pub fn odd_string(rng: &mut Rng) -> Vec<u8> {
    let mut s = utf8(rng);
    match rng.below(5) {
        0 if !s.is_empty() => {
            let i = rng.below(s.len());
            s.remove(i);
        }
        1 if !s.is_empty() => {
            let i = rng.below(s.len());
            s[i] = rng.next() as u8;
        }
        2 => {
            let i = rng.range(0, s.len());
            let c = *rng.pick(&[0x80u8, 0xc0, 0xc1, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff, 0xbf]);
            s.insert(i, c);
        }
        3 => {
            let bad: &[u8] = rng.pick(&[
                &[0xe0u8, 0x80, 0x80][..], &[0xed, 0xa0, 0x80], &[0xf0, 0x80, 0x80, 0x80], &[0xf4, 0x90, 0x80, 0x80],
                &[0xf0, 0x9f, 0x98], &[0xe2, 0x82], &[0xc3], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xc0, 0x80],
            ]);
            s.extend_from_slice(bad);
        }
        _ => s = blob(rng),
    }
    s
}

pub fn tag(rng: &mut Rng, odd: usize, n: u64, w: u8) -> Vec<u8> {
    let t = (n << 3) | w as u64;
    if rng.chance(odd / 3) { padded(rng, t) } else { varint(t) }
}
fn len_prefixed(rng: &mut Rng, odd: usize, body: &[u8]) -> Vec<u8> {
    let mut out = if rng.chance(odd / 3) { padded(rng, body.len() as u64) } else { varint(body.len() as u64) };
    out.extend_from_slice(body);
    out
}

/// The varint a scalar value of the type may legitimately be sent as.
fn scalar_varint(rng: &mut Rng, odd: usize, ty: &str) -> Vec<u8> {
    let mut x = number64(rng);
    if !rng.chance(odd * 2) {
        x = match ty {
            "Bool" => x & 1,
            "UInt32" | "SInt32" => x as u32 as u64,
            "Int32" => x as i32 as i64 as u64,
            _ => x,
        };
    }
    if rng.chance(odd) { padded(rng, x) } else { varint(x) }
}

pub fn scalar_bytes(rng: &mut Rng, odd: usize, ty: &str) -> Vec<u8> {
    match wire_of(ty) {
        1 => fixed(rng, 8),
        5 => fixed(rng, 4),
        _ => scalar_varint(rng, odd, ty),
    }
}

/// Any complete value of a wire type.
fn raw_value(rng: &mut Rng, odd: usize, w: u8) -> Vec<u8> {
    match w {
        0 => {
            let x = number64(rng);
            if rng.chance(odd) { padded(rng, x) } else { varint(x) }
        }
        1 => fixed(rng, 8),
        5 => fixed(rng, 4),
        _ => {
            let b = blob(rng);
            len_prefixed(rng, odd, &b)
        }
    }
}

fn unused_number(rng: &mut Rng, s: &Schema, m: usize) -> u64 {
    loop {
        let n = match rng.below(9) {
            // A known number, but for a bit that a narrower type drops.
            6 if !s.msgs[m - 1].fields.is_empty() => rng.pick(&s.msgs[m - 1].fields).n ^ (1 << *rng.pick(&[5u32, 7, 8, 15, 16, 28, 29, 31, 32, 48, 60])),
            7 => *rng.pick(&[18999u64, 19000, 19500, 19999, 20000]) + rng.below(2) as u64,
            0 => *rng.pick(&[0u64, 15, 16, 2047, 2048, 536870911, 1 << 29, (1 << 61) - 1]),
            1 => rng.next() >> rng.range(3, 63),
            _ => rng.range(1, 40) as u64,
        };
        if s.field(m, n).is_none() {
            return n;
        }
    }
}

pub fn packed_body(rng: &mut Rng, odd: usize, ty: &str, malformed: bool) -> Vec<u8> {
    let count = match big(Dim::Packed) { Some(n) => n, None => match rng.below(12) { 0 => 0, 1 => rng.range(20, 60), _ => rng.range(1, 5) } };
    let mut body = vec![];
    for _ in 0..count {
        body.extend(scalar_bytes(rng, odd, ty));
    }
    if malformed {
        match wire_of(ty) {
            0 => match rng.below(3) {
                0 => body.push(0x80 | rng.next() as u8),
                1 => body.extend(vec![0xff; rng.range(10, 12)]),
                _ => body.extend_from_slice(&[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00]),
            },
            w => {
                let n = if w == 1 { rng.range(1, 7) } else { rng.range(1, 3) };
                body.extend((0..n).map(|_| rng.next() as u8));
            }
        }
    }
    body
}

/// A complete occurrence of a declared field in its declared wire type (never packed).
pub fn known_piece(rng: &mut Rng, s: &Schema, f: &Field, mix: &Mix, depth: usize) -> Vec<u8> {
    let mut out = tag(rng, mix.odd, f.n, wire_of(&f.ty));
    match f.ty.as_str() {
        "String" => {
            let b = if rng.chance(mix.odd * 2) { odd_string(rng) } else { utf8(rng) };
            out.extend(len_prefixed(rng, mix.odd, &b));
        }
        "Bytes" => {
            let b = blob(rng);
            out.extend(len_prefixed(rng, mix.odd, &b));
        }
        "Message" => {
            let b = if depth == 0 { vec![] } else { payload(rng, s, f.r, mix, depth - 1) };
            out.extend(len_prefixed(rng, mix.odd, &b));
        }
        ty => out.extend(scalar_bytes(rng, mix.odd, ty)),
    }
    out
}

pub fn payload(rng: &mut Rng, s: &Schema, m: usize, mix: &Mix, depth: usize) -> Vec<u8> {
    let mut out = vec![];
    let many = big(Dim::Pieces);
    let depth = if many.is_some() { 1 } else { depth };
    let mut mix = mix.clone();
    if many.is_some() && rng.chance(85) {
        // Nothing that would swallow the rest.
        mix.invalid = 0;
        mix.truncated = 0;
        mix.garbage = 0;
        mix.random = 0;
    }
    let mix = &mix;
    let n = match rng.below(10) { _ if many.is_some() => many.unwrap(), 0 => 0, _ if depth > 3 => rng.range(1, 2), _ => rng.range(1, mix.pieces) };
    let fields = &s.msgs[m - 1].fields;
    let mut pieces: Vec<std::ops::Range<usize>> = vec![];
    let mut at = 0;
    for _ in 0..n {
        // The same again: what came last, or anything before.
        if out.len() > at {
            pieces.push(at..out.len());
        }
        if !pieces.is_empty() && rng.chance(9) {
            let p = if rng.chance(70) { pieces[pieces.len() - 1].clone() } else { rng.pick(&pieces).clone() };
            if p.len() < 300 {
                out.extend_from_within(p);
            }
        }
        at = out.len();
        let ws = [mix.known, mix.unknown, mix.mismatch, mix.packed, mix.nested, mix.invalid, mix.truncated, mix.garbage, mix.random];
        // A message without fields has nothing but unknown fields to offer.
        let kind = rng.weighted(&ws);
        match if fields.is_empty() && [2, 5, 6].contains(&kind) { 1 } else { kind } {
            0 => {
                let fs: Vec<&Field> = fields.iter().filter(|f| f.ty != "Message").collect();
                if fs.is_empty() { continue; }
                let f = fs[rng.below(fs.len())];
                out.extend(known_piece(rng, s, f, mix, depth));
            }
            1 => {
                let n = unused_number(rng, s, m);
                let w = *rng.pick(&[0u8, 1, 2, 5]);
                out.extend(tag(rng, mix.odd, n, w));
                out.extend(raw_value(rng, mix.odd, w));
            }
            2 => {
                // Not the declared wire type, and not the packed form of a repeated scalar either.
                let f = rng.pick(fields);
                let rep = f.mult.starts_with("Repeated") && (is_scalar(&f.ty) || f.ty == "Enum");
                let ws: Vec<u8> = [0u8, 1, 2, 5].iter().copied().filter(|w| *w != wire_of(&f.ty) && !(*w == 2 && rep)).collect();
                let w = *rng.pick(&ws);
                out.extend(tag(rng, mix.odd, f.n, w));
                out.extend(raw_value(rng, mix.odd, w));
            }
            3 => {
                let fs: Vec<&Field> = fields.iter().filter(|f| f.mult.starts_with("Repeated") && is_scalar(&f.ty)).collect();
                if fs.is_empty() { continue; }
                let f = fs[rng.below(fs.len())];
                let bad = rng.chance(mix.odd);
                let body = packed_body(rng, mix.odd, &f.ty, bad);
                out.extend(tag(rng, mix.odd, f.n, 2));
                out.extend(len_prefixed(rng, mix.odd, &body));
            }
            4 => {
                let fs: Vec<&Field> = fields.iter().filter(|f| f.ty == "Message").collect();
                if fs.is_empty() { continue; }
                let f = fs[rng.below(fs.len())];
                out.extend(known_piece(rng, s, f, mix, depth));
            }
            5 => {
                let n = if rng.chance(50) { rng.pick(fields).n } else { rng.range(1, 40) as u64 };
                let w = *rng.pick(&[3u8, 4, 6, 7]);
                out.extend(tag(rng, mix.odd, n, w));
                if rng.chance(60) {
                    out.extend(blob(rng));
                }
            }
            6 => {
                // Complete piece, cut after its tag; everything after it becomes part of the damage.
                let f = rng.pick(fields).clone();
                let full = known_piece(rng, s, &f, mix, depth.min(1));
                let cut = rng.range(1, full.len());
                out.extend_from_slice(&full[..cut]);
                if rng.chance(70) { return out; }
            }
            7 => {
                match rng.below(3) {
                    0 => out.push(0x80 | rng.next() as u8),
                    1 => out.extend(vec![0x80 | rng.next() as u8; rng.range(2, 9)]),
                    _ => out.extend(vec![0xff; rng.range(10, 13)]),
                }
                if rng.chance(70) { return out; }
            }
            _ => {
                let b: Vec<u8> = (0..rng.range(1, 12)).map(|_| if rng.chance(50) { rng.next() as u8 } else { *rng.pick(&[0u8, 8, 10, 0x0d, 0x80, 0xff, 1, 2, 18]) }).collect();
                out.extend(b);
            }
        }
    }
    if out.len() > at && out.len() - at < 300 && rng.chance(5) {
        out.extend_from_within(at..);
    }
    out
}

/// A random value as events, fields matching their declarations (C09, C10).
pub fn value(rng: &mut Rng, s: &Schema, m: usize, depth: usize, out: &mut Vec<Ev>, unknowns: bool) {
    let many = big(Dim::Pieces);
    let depth = if many.is_some() { 1 } else { depth };
    let n = if let Some(n) = many { n } else if out.len() > 60 { rng.below(2) } else { match rng.below(8) { 0 => 0, _ => rng.range(1, 6) } };
    let fields = s.msgs[m - 1].fields.clone();
    for _ in 0..n {
        if unknowns && rng.chance(20) {
            let num = unused_number(rng, s, m);
            match rng.below(4) {
                0 => out.push(Ev::new('F', num, "UVarint", 0, number64(rng).to_le_bytes().to_vec())),
                1 => out.push(Ev::new('F', num, "UFixed64", 1, fixed(rng, 8))),
                2 => out.push(Ev::new('F', num, "UBytes", 2, blob(rng))),
                _ => out.push(Ev::new('F', num, "UFixed32", 5, fixed(rng, 4))),
            }
            continue;
        }
        let f = rng.pick(&fields).clone();
        let scalar = |rng: &mut Rng| -> Vec<u8> {
            match f.ty.as_str() {
                "Bool" => vec![rng.below(2) as u8],
                "Int32" | "UInt32" | "SInt32" => number64(rng).to_le_bytes()[..4].to_vec(),
                "Fixed32" | "SFixed32" | "Float" => fixed(rng, 4),
                "Fixed64" | "SFixed64" | "Double" => fixed(rng, 8),
                _ => number64(rng).to_le_bytes().to_vec(),
            }
        };
        match f.ty.as_str() {
            "Message" => {
                let mut e = Ev::new('E', f.n, "Message", 2, vec![]);
                e.m = s.msgs[f.r - 1].name.clone();
                out.push(e);
                if depth == 0 || out.len() > 300 {
                    out.push(Ev::new('L', 0, "Leave", 0, vec![]));
                } else {
                    value(rng, s, f.r, depth - 1, out, unknowns);
                }
            }
            "String" => out.push(Ev::new('F', f.n, "String", 2, utf8(rng))),
            "Bytes" => out.push(Ev::new('F', f.n, "Bytes", 2, blob(rng))),
            "Enum" => {
                let mut e = Ev::new('F', f.n, "Enum", 0, number64(rng).to_le_bytes().to_vec());
                e.m = f.en.clone();
                out.push(e);
            }
            ty => {
                if f.mult.starts_with("Repeated") && rng.chance(70) {
                    let cnt = match big(Dim::Packed) { Some(n) => n, None => match rng.below(12) { 0 => 0, 1 => rng.range(20, 150), _ => rng.range(1, 5) } };
                    let mut e = Ev::new('F', f.n, &format!("P{}", ty), 2, vec![]);
                    for _ in 0..cnt {
                        e.vs.push(scalar(rng));
                    }
                    out.push(e);
                } else {
                    let v = scalar(rng);
                    out.push(Ev::new('F', f.n, ty, wire_of(ty), v));
                }
            }
        }
    }
    out.push(Ev::new('L', 0, "Leave", 0, vec![]));
}
