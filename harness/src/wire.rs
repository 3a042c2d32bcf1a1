//! Recording and replaying decodes and encodes of the real library.
use crate::ev::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::schema::*;
use crate::util::*;
use protofish::decode::MessageValue;
use serde_json::Value as J;
use std::fmt::Write as _;

pub fn decode(b: &Built, m: usize, src: &[u8], via_ctx: bool) -> MessageValue {
    if via_ctx {
        b.ctx.decode(b.msgs[m - 1], src)
    } else {
        b.ctx.resolve_message(b.msgs[m - 1]).decode(src, &b.ctx)
    }
}

/// Decodes and flattens; a panic becomes an error text.
fn dec(b: &Built, m: usize, src: &[u8], via: bool) -> Result<(MessageValue, Vec<Ev>, String), String> {
    guarded(|| {
        let v = decode(b, m, src, via);
        let e = flatten(&v, &b.ctx);
        let root = msg_name(&b.ctx, v.msg_ref);
        (v, e, root)
    })
}

struct Rec<'a> {
    out: &'a mut Out,
    id: usize,
}
impl Rec<'_> {
    fn put(&mut self, kind: &str, s: usize, m: usize, rest: &str) {
        self.id += 1;
        self.out.line(&format!("{{\"id\":{},\"kind\":\"{}\",\"s\":{},\"m\":{}{}}}", self.id, kind, s, m, rest));
    }
    fn panic(&mut self, s: usize, m: usize, src: &[u8], what: &str, e: &str) {
        self.put("panic", s, m, &format!(",\"src\":{},\"what\":{},\"msg\":{}", jb(src), jstr(what), jstr(e)));
    }
}

/// The bytes and place one item of a class works on.
struct Item<'a> {
    b: &'a Built,
    sch: &'a Schema,
    s: usize,
    m: usize,
}

/// Contexts for the schemas of a specification run: built by hand as they are, parsed with everything around the fields.
struct Made {
    bare: Vec<Schema>,
    dressed: Vec<Schema>,
    bare_ctx: Vec<Built>,
    dressed_ctx: Vec<Built>,
}
impl Made {
    fn new(bare: Vec<Schema>, seed: u64) -> Made {
        let dressed: Vec<Schema> = bare.iter().enumerate().map(|(i, s)| {
            let mut s = s.clone();
            s.dress = (seed.wrapping_mul(1000) + i as u64 + 1) & 0xfff_ffff;
            s.parsed = i % 3 != 2;
            s
        }).collect();
        let bare_ctx = bare.iter().map(|s| s.build_by_hand()).collect();
        let dressed_ctx = dressed.iter().map(|s| s.build()).collect();
        Made { bare, dressed, bare_ctx, dressed_ctx }
    }
    fn item(&self, v: &J, k: usize) -> Item<'_> {
        let s = v["s"].as_u64().unwrap() as usize;
        let m = v["m"].as_u64().unwrap() as usize;
        if k % 2 == 0 {
            Item { b: &self.bare_ctx[s - 1], sch: &self.bare[s - 1], s, m }
        } else {
            Item { b: &self.dressed_ctx[s - 1], sch: &self.dressed[s - 1], s, m }
        }
    }
}

fn status(cfg: &Cfg, it: &Item, what: &str, src: &[u8]) {
    cfg.status(&format!("{{\"class\":\"{}\",\"what\":\"{}\",\"schema\":{},\"m\":{},\"src\":{}}}", cfg.class, what, it.sch.json(), it.m, jb(src)));
}

pub fn record(cfg: &Cfg) {
    let mut rng = Rng::new(cfg.seed);
    let mut out = Out::create(&cfg.out);
    let mut sout = Out::create(&format!("{}.sch", cfg.out));
    let mut rec = Rec { out: &mut out, id: 0 };
    let class = cfg.class.as_str();

    // Inputs generated by TLC: schemas and payloads in files.
    if let Some(inp) = &cfg.input {
        let schemas: Vec<Schema> = read_lines(&format!("{}.sch", inp)).iter().map(Schema::from_json).collect();
        for s in &schemas {
            sout.line(&s.json());
        }
        let made = Made::new(schemas, cfg.seed);
        for (k, v) in read_lines(inp).iter().enumerate() {
            let it = made.item(v, k);
            let src = unb(&v["src"]);
            match class {
                "c05" => cuts(cfg, &mut rec, &it, &src),
                "c06" => nests(cfg, &mut rng, &mut rec, &it, &src, true),
                "c07" => {
                    cats(cfg, &mut rng, &mut rec, &it, &src, None);
                    nests(cfg, &mut rng, &mut rec, &it, &src, false);
                }
                _ => panic!("harness: class {} takes no inputs", class),
            }
        }
        return;
    }

    let per = if class == "c01" { 24 } else { 16 };
    // Large payloads: every item has one large dimension, and those where it found no place are dropped.
    let large = cfg.extra.iter().any(|e| e == "--big=1");
    let mut tries = 0usize;
    let mut s = 0;
    while rec.id < cfg.n {
        let opts = match class {
            "c01" => SchemaOpts { repeated: 40, odd_multiplicities: true, parsed: 30, messages: 4 },
            "c08" => SchemaOpts { repeated: 85, odd_multiplicities: false, parsed: 50, messages: 2 },
            _ => SchemaOpts { repeated: 30, odd_multiplicities: false, parsed: 25, messages: 3 },
        };
        let sch = gen_schema(&mut rng, &opts);
        let b = sch.build();
        s += 1;
        sout.line(&sch.json());
        for _ in 0..per {
            let m = rng.range(1, sch.msgs.len());
            let it = Item { b: &b, sch: &sch, s, m };
            if large {
                set_big(&mut rng, tries);
                tries += 1;
            }
            match class {
                "c01" => outcome(cfg, &mut rng, &mut rec, &it),
                "c02" => {
                    let mut mix = ALL;
                    if rng.chance(60) { mix.odd = 0; }
                    let src = payload(&mut rng, &sch, m, &mix, 3);
                    if clear_big() { continue; }
                    encs(cfg, &mut rec, &it, &src);
                }
                "c03" => {
                    let mut mix = VALID;
                    if rng.chance(5) { mix.depth = 12; }
                    let src = payload(&mut rng, &sch, m, &mix, mix.depth);
                    if clear_big() { continue; }
                    decs(cfg, &mut rng, &mut rec, &it, &src);
                }
                "c04" => {
                    let src = payload(&mut rng, &sch, m, &SKIP, 2);
                    if clear_big() { continue; }
                    decs(cfg, &mut rng, &mut rec, &it, &src);
                }
                "c05" => {
                    let mut mix = ALL;
                    mix.pieces = 4;
                    let src = payload(&mut rng, &sch, m, &mix, 2);
                    if large {
                        if clear_big() { continue; }
                        some_cuts(cfg, &mut rng, &mut rec, &it, &src);
                    } else if src.len() <= 48 {
                        cuts(cfg, &mut rec, &it, &src);
                    }
                }
                "c06" => {
                    let mut mix = ALL;
                    mix.truncated = 6;
                    mix.garbage = 5;
                    mix.random = 6;
                    mix.invalid = 3;
                    let src = payload(&mut rng, &sch, m, &mix, 2);
                    if !clear_big() {
                        nests(cfg, &mut rng, &mut rec, &it, &src, true);
                    }
                    if large { let k = rng.range(2, 3); set_big(&mut rng, k); }
                    packs(cfg, &mut rng, &mut rec, &it);
                }
                "c07" => {
                    let mut mix = ALL;
                    mix.truncated = 0;
                    mix.garbage = 0;
                    mix.invalid = 0;
                    mix.random = 0;
                    let a = payload(&mut rng, &sch, m, &mix, 2);
                    if clear_big() { continue; }
                    if large && rng.chance(50) { set_big(&mut rng, tries / 2); }
                    let c = if !large && rng.chance(8) { a.clone() } else { payload(&mut rng, &sch, m, &ALL, 2) };
                    clear_big();
                    cats(cfg, &mut rng, &mut rec, &it, &a, Some(c));
                    if large { set_big(&mut rng, tries / 3); }
                    let w = payload(&mut rng, &sch, m, &ALL, 2);
                    clear_big();
                    nests(cfg, &mut rng, &mut rec, &it, &w, false);
                }
                "c08" => {
                    let src = payload(&mut rng, &sch, m, &PACKED, 1);
                    if !clear_big() {
                        decs(cfg, &mut rng, &mut rec, &it, &src);
                    }
                    if large { set_big(&mut rng, 2); }
                    elements(cfg, &mut rng, &mut rec, &it);
                }
                "c09" | "c10" => {
                    let mut evs = vec![];
                    let depth = if rng.chance(2) { 60 } else { 3 };
                    value(&mut rng, &sch, m, depth, &mut evs, true);
                    if clear_big() { continue; }
                    vals(cfg, &mut rec, &it, &evs);
                }
                _ => panic!("harness: class {}", class),
            }
        }
    }
    if !large && (class == "c03" || class == "c07" || class == "c09") {
        deep(cfg, &mut rec, &mut sout, s + 1);
    }
}

fn recursive_schema() -> Schema {
    let f = |n, ty: &str, mult: &str, r| Field { n, ty: ty.into(), mult: mult.into(), r, en: String::new(), opt: 0 };
    Schema {
        parsed: false,
        dress: 0,
        msgs: vec![Msg {
            name: "R".into(),
            fields: vec![f(1, "Message", "Single", 1), f(2, "Int32", "Single", 0), f(3, "Message", "Repeated", 1)],
        }],
    }
}
fn nest_bytes(levels: usize, core: &[u8]) -> Vec<u8> {
    let mut b = core.to_vec();
    for i in 0..levels {
        let mut o = vec![if i % 3 == 2 { 26u8 } else { 10u8 }];
        o.extend(varint(b.len() as u64));
        o.extend(b);
        b = o;
    }
    b
}
/// Nesting around the limit of 100 levels.
fn deep(cfg: &Cfg, rec: &mut Rec, sout: &mut Out, s: usize) {
    let sch = recursive_schema();
    let b = sch.build_by_hand();
    sout.line(&sch.json());
    let it = Item { b: &b, sch: &sch, s, m: 1 };
    let mut rng = Rng::new(7);
    for levels in [1usize, 2, 31, 63, 64, 98, 99, 100] {
        let core = [16u8, 150, 1];
        match cfg.class.as_str() {
            "c03" => decs(cfg, &mut rng, rec, &it, &nest_bytes(levels, &core)),
            "c07" => {
                let inner = nest_bytes(levels - 1, &core);
                nest_one(cfg, rec, &it, 1, 1, &[], &inner, &[16, 1], false);
            }
            _ => {
                let mut evs = vec![];
                for _ in 0..levels {
                    let mut e = Ev::new('E', 1, "Message", 2, vec![]);
                    e.m = "R".into();
                    evs.push(e);
                }
                evs.push(Ev::new('F', 2, "Int32", 0, vec![150, 0, 0, 0]));
                for _ in 0..=levels {
                    evs.push(Ev::new('L', 0, "Leave", 0, vec![]));
                }
                vals(cfg, rec, &it, &evs);
            }
        }
    }
}

/// C01: nothing but the outcome and a digest of the result.
fn outcome(cfg: &Cfg, rng: &mut Rng, rec: &mut Rec, it: &Item) {
    let src = match rng.below(40) {
        0 => {
            // Nesting far beyond any limit, through a recursive field when there is one.
            let lv = *rng.pick(&[99usize, 100, 101, 102, 500, 5000, 20000]);
            let n = it.sch.msgs[it.m - 1].fields.iter().find(|f| f.r == it.m).map(|f| f.n).unwrap_or(1);
            let t = varint((n << 3) | 2);
            let core = payload(rng, it.sch, it.m, &ALL, 1);
            let mut chunks: Vec<Vec<u8>> = vec![core];
            let mut len = chunks[0].len();
            for _ in 0..lv {
                let mut h = t.clone();
                h.extend(varint(len as u64));
                len += h.len();
                chunks.push(h);
            }
            chunks.reverse();
            chunks.concat()
        }
        1 => {
            // Enormous lengths.
            let mut o = vec![];
            let f = rng.pick(&it.sch.msgs[it.m - 1].fields).n;
            o.extend(varint((if rng.chance(70) { f } else { 4000 } << 3) | 2));
            let l = *rng.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 31) - 1, u64::MAX - 8, 1 << 40]);
            o.extend(varint(l));
            o.extend(blob(rng));
            o
        }
        2 => {
            let k = rng.range(1, 400);
            (0..k).map(|_| rng.next() as u8).collect()
        }
        3..=6 => {
            let k = rng.range(0, 14);
            (0..k).map(|_| *rng.pick(&[0xffu8, 0x80, 0x0a, 0x08, 0x12, 0x10, 0x00, 0x01, 0x7f, 0x0d, 0x09])).collect()
        }
        7 => vec![0xff; rng.range(1, 30)],
        _ => {
            let mut mix = ALL;
            mix.odd = 50;
            mix.packed = 8;
            mix.truncated = 5;
            mix.garbage = 4;
            mix.random = 4;
            let large = rng.chance(4);
            if large {
                let k = rng.below(4);
                set_big(rng, k);
            }
            let mut p = payload(rng, it.sch, it.m, &mix, 3);
            clear_big();
            if rng.chance(40) && !p.is_empty() {
                for _ in 0..rng.range(1, 3) {
                    let i = rng.below(p.len());
                    match rng.below(3) {
                        0 => p[i] = rng.next() as u8,
                        1 => p[i] ^= 0x80,
                        _ => { p.truncate(i + 1); }
                    }
                }
            }
            // Packed form of a field that has none.
            if rng.chance(20) {
                let f = rng.pick(&it.sch.msgs[it.m - 1].fields).clone();
                p.extend(varint((f.n << 3) | 2));
                let body = blob(rng);
                p.extend(varint(body.len() as u64));
                p.extend(body);
            }
            p
        }
    };
    outcome_of(cfg, rec, it, &src);
}
fn outcome_of(cfg: &Cfg, rec: &mut Rec, it: &Item, src: &[u8]) {
    status(cfg, it, "decode", src);
    let small = src.len() <= 64;
    let shown = if small { jb(src) } else { "[]".into() };
    match dec(it.b, it.m, src, true) {
        Ok((_, e, _)) => rec.put("out", it.s, it.m, &format!(
            ",\"src\":{},\"len\":{},\"ok\":true,\"nev\":{},\"digest\":\"{:016x}\",\"msg\":\"\"", shown, src.len(), e.len(), fnv(evs_json(&e).as_bytes()))),
        Err(msg) => rec.put("out", it.s, it.m, &format!(
            ",\"src\":{},\"len\":{},\"ok\":false,\"nev\":0,\"digest\":\"\",\"msg\":{}", jb(src), src.len(), jstr(&msg))),
    }
}

fn decs(cfg: &Cfg, rng: &mut Rng, rec: &mut Rec, it: &Item, src: &[u8]) {
    status(cfg, it, "decode", src);
    match dec(it.b, it.m, src, rng.chance(50)) {
        Ok((_, e, root)) => rec.put("dec", it.s, it.m, &format!(",\"src\":{},\"root\":{},\"ev\":{}", jb(src), jstr(&root), evs_json(&e))),
        Err(msg) => rec.panic(it.s, it.m, src, "decode", &msg),
    }
}

fn encs(cfg: &Cfg, rec: &mut Rec, it: &Item, src: &[u8]) {
    status(cfg, it, "decode-encode-decode", src);
    let r = guarded(|| {
        let v = decode(it.b, it.m, src, true);
        let e = flatten(&v, &it.b.ctx);
        let enc = v.encode(&it.b.ctx).to_vec();
        let v2 = decode(it.b, it.m, &enc, true);
        let e2 = flatten(&v2, &it.b.ctx);
        (e, enc, e2)
    });
    match r {
        Ok((e, enc, e2)) => rec.put("enc", it.s, it.m, &format!(
            ",\"src\":{},\"enc\":{},\"same\":{}", jb(src), jb(&enc), e == e2)),
        Err(msg) => rec.panic(it.s, it.m, src, "decode-encode-decode", &msg),
    }
}

fn cuts(cfg: &Cfg, rec: &mut Rec, it: &Item, src: &[u8]) {
    status(cfg, it, "cuts", src);
    let r = guarded(|| {
        (0..=src.len()).map(|c| flatten(&decode(it.b, it.m, &src[..c], true), &it.b.ctx)).collect::<Vec<_>>()
    });
    match r {
        Ok(cs) => {
            let mut s = String::new();
            write!(s, ",\"src\":{},\"cuts\":[", jb(src)).unwrap();
            for (i, c) in cs.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                s.push_str(&evs_json(c));
            }
            s.push(']');
            rec.put("cut", it.s, it.m, &s);
        }
        Err(msg) => rec.panic(it.s, it.m, src, "cuts", &msg),
    }
}

/// The same at a few places of a long payload.
fn some_cuts(cfg: &Cfg, rng: &mut Rng, rec: &mut Rec, it: &Item, src: &[u8]) {
    status(cfg, it, "cuts", src);
    let at: Vec<usize> = (0..5).map(|k| match k { 0 => src.len().saturating_sub(1), 1 => src.len().saturating_sub(rng.range(1, 20)), _ => rng.range(0, src.len()) }).collect();
    let d = |s: &[u8]| flatten(&decode(it.b, it.m, s, true), &it.b.ctx);
    match guarded(|| (d(src), at.iter().map(|c| d(&src[..*c])).collect::<Vec<_>>())) {
        Ok((full, cs)) => rec.put("cutat", it.s, it.m, &format!(",\"src\":{},\"at\":{:?},\"full\":{},\"cuts\":[{}]",
            jb(src), at, evs_json(&full), cs.iter().map(|c| evs_json(c)).collect::<Vec<_>>().join(","))),
        Err(msg) => rec.panic(it.s, it.m, src, "cuts", &msg),
    }
}

/// Complete fields only, so that the piece ends at a field boundary.
fn boundary_mix() -> Mix {
    let mut m = ALL;
    m.truncated = 0;
    m.garbage = 0;
    m.invalid = 0;
    m.random = 0;
    m.pieces = 2;
    m.odd = 5;
    m
}

/// The content, wrapped as a field of every message type that has a field of this type.
fn nests(cfg: &Cfg, rng: &mut Rng, rec: &mut Rec, it: &Item, inner: &[u8], siblings: bool) {
    let mut parents = vec![];
    for (pi, p) in it.sch.msgs.iter().enumerate() {
        for f in &p.fields {
            if f.r == it.m {
                parents.push((pi + 1, f.n));
            }
        }
    }
    if parents.is_empty() {
        return;
    }
    let (pm, n) = parents[rng.below(parents.len())];
    let mix = boundary_mix();
    let (a, c) = if siblings {
        let a = payload(rng, it.sch, pm, &mix, 1);
        let mut c = payload(rng, it.sch, pm, &mix, 1);
        if rng.chance(10) {
            c.push(0x80 | rng.next() as u8);
        }
        (a, c)
    } else {
        (vec![], vec![])
    };
    nest_one(cfg, rec, it, pm, n, &a, inner, &c, true);
}

fn nest_one(cfg: &Cfg, rec: &mut Rec, it: &Item, pm: usize, n: u64, a: &[u8], inner: &[u8], c: &[u8], _q: bool) {
    let mut whole = a.to_vec();
    whole.extend(varint((n << 3) | 2));
    whole.extend(varint(inner.len() as u64));
    whole.extend_from_slice(inner);
    whole.extend_from_slice(c);
    status(cfg, it, "nest", &whole);
    let f = |m: usize, s: &[u8]| flatten(&decode(it.b, m, s, true), &it.b.ctx);
    match guarded(|| (f(pm, a), f(it.m, inner), f(pm, c), f(pm, &whole))) {
        Ok((ea, ei, ec, ew)) => rec.put("nest", it.s, pm, &format!(
            ",\"im\":{},\"n\":{},\"a\":{},\"inner\":{},\"c\":{},\"whole\":{},\"ea\":{},\"ei\":{},\"ec\":{},\"ew\":{}",
            it.m, jb(&trim(n)), jb(a), jb(inner), jb(c), jb(&whole), evs_json(&ea), evs_json(&ei), evs_json(&ec), evs_json(&ew))),
        Err(msg) => rec.panic(it.s, pm, &whole, "nest", &msg),
    }
}

/// A packed field with damaged elements between siblings.
fn packs(cfg: &Cfg, rng: &mut Rng, rec: &mut Rec, it: &Item) {
    let fs: Vec<&Field> = it.sch.msgs[it.m - 1].fields.iter().filter(|f| f.mult.starts_with("Repeated") && is_scalar(&f.ty)).collect();
    if fs.is_empty() {
        return;
    }
    let f = fs[rng.below(fs.len())];
    let mix = boundary_mix();
    let a = payload(rng, it.sch, it.m, &mix, 1);
    let c = payload(rng, it.sch, it.m, &mix, 1);
    let bad = rng.chance(80);
    let body = packed_body(rng, 10, &f.ty, bad);
    clear_big();
    let mut whole = a.clone();
    whole.extend(varint((f.n << 3) | 2));
    whole.extend(varint(body.len() as u64));
    whole.extend_from_slice(&body);
    whole.extend_from_slice(&c);
    status(cfg, it, "pack", &whole);
    let d = |s: &[u8]| flatten(&decode(it.b, it.m, s, true), &it.b.ctx);
    match guarded(|| (d(&a), d(&c), d(&whole))) {
        Ok((ea, ec, ew)) => rec.put("pack", it.s, it.m, &format!(
            ",\"n\":{},\"ty\":\"{}\",\"a\":{},\"body\":{},\"c\":{},\"whole\":{},\"ea\":{},\"ec\":{},\"ew\":{}",
            jb(&trim(f.n)), f.ty, jb(&a), jb(&body), jb(&c), jb(&whole), evs_json(&ea), evs_json(&ec), evs_json(&ew))),
        Err(msg) => rec.panic(it.s, it.m, &whole, "pack", &msg),
    }
}

fn cats(cfg: &Cfg, rng: &mut Rng, rec: &mut Rec, it: &Item, a: &[u8], b: Option<Vec<u8>>) {
    // A payload of TLC is split at every place; the specification skips splits within fields.
    let pairs: Vec<(Vec<u8>, Vec<u8>)> = match b {
        Some(b) => vec![(a.to_vec(), b)],
        None => {
            let i = rng.range(0, a.len());
            vec![(a[..i].to_vec(), a[i..].to_vec())]
        }
    };
    for (x, y) in pairs {
        let mut xy = x.clone();
        xy.extend_from_slice(&y);
        status(cfg, it, "cat", &xy);
        let d = |s: &[u8]| flatten(&decode(it.b, it.m, s, true), &it.b.ctx);
        match guarded(|| (d(&x), d(&y), d(&xy))) {
            Ok((ea, eb, eab)) => rec.put("cat", it.s, it.m, &format!(
                ",\"a\":{},\"b\":{},\"ea\":{},\"eb\":{},\"eab\":{}", jb(&x), jb(&y), evs_json(&ea), evs_json(&eb), evs_json(&eab))),
            Err(msg) => rec.panic(it.s, it.m, &xy, "cat", &msg),
        }
    }
}

/// C08: the elements of a packed array against the same bytes sent one by one.
fn elements(cfg: &Cfg, rng: &mut Rng, rec: &mut Rec, it: &Item) {
    let fs: Vec<&Field> = it.sch.msgs[it.m - 1].fields.iter().filter(|f| f.mult.starts_with("Repeated") && is_scalar(&f.ty)).collect();
    if fs.is_empty() {
        return;
    }
    let f = fs[rng.below(fs.len())];
    let k = big_packed().unwrap_or_else(|| rng.range(1, 6));
    let mut body = vec![];
    let mut singles = vec![];
    for _ in 0..k {
        let e = scalar_bytes(rng, 20, &f.ty);
        singles.extend(varint((f.n << 3) | wire_of(&f.ty) as u64));
        singles.extend_from_slice(&e);
        body.extend(e);
    }
    let mut packed = varint((f.n << 3) | 2);
    packed.extend(varint(body.len() as u64));
    packed.extend(body);
    status(cfg, it, "elements", &packed);
    let d = |s: &[u8]| flatten(&decode(it.b, it.m, s, true), &it.b.ctx);
    match guarded(|| (d(&packed), d(&singles))) {
        Ok((ep, es)) => rec.put("elems", it.s, it.m, &format!(
            ",\"n\":{},\"ty\":\"{}\",\"packed\":{},\"singles\":{},\"ep\":{},\"es\":{}",
            jb(&trim(f.n)), f.ty, jb(&packed), jb(&singles), evs_json(&ep), evs_json(&es))),
        Err(msg) => rec.panic(it.s, it.m, &packed, "elements", &msg),
    }
}

fn has_nan(evs: &[Ev]) -> bool {
    let nan = |ty: &str, v: &[u8]| match ty {
        "Float" | "PFloat" => f32::from_le_bytes([v[0], v[1], v[2], v[3]]).is_nan(),
        "Double" | "PDouble" => f64::from_le_bytes([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]]).is_nan(),
        _ => false,
    };
    evs.iter().any(|e| (!e.v.is_empty() && nan(&e.k, &e.v)) || e.vs.iter().any(|v| nan(&e.k, v)))
}

/// C09 and C10: encode a given value, decode it again.
fn vals(cfg: &Cfg, rec: &mut Rec, it: &Item, evs: &[Ev]) {
    cfg.status(&format!("{{\"class\":\"{}\",\"what\":\"encode\",\"schema\":{},\"m\":{},\"value\":{}}}", cfg.class, it.sch.json(), it.m, evs_json(evs)));
    let given = unflatten(evs, it.b.msgs[it.m - 1], &|n| it.b.msg_ref(n), &|n| it.b.enums[n]);
    let enc = guarded(|| given.encode(&it.b.ctx).to_vec());
    let enc = match enc {
        Ok(e) => e,
        Err(msg) => {
            rec.put("panic", it.s, it.m, &format!(",\"src\":[],\"what\":\"encode\",\"msg\":{},\"given\":{}", jstr(&msg), evs_json(evs)));
            return;
        }
    };
    if cfg.class == "c10" {
        rec.put("c10", it.s, it.m, &format!(",\"given\":{},\"enc\":{}", evs_json(evs), jb(&enc)));
        return;
    }
    match guarded(|| {
        let v = decode(it.b, it.m, &enc, true);
        (flatten(&v, &it.b.ctx), has_nan(evs) || v == given)
    }) {
        Ok((e, eq)) => rec.put("c09", it.s, it.m, &format!(
            ",\"given\":{},\"enc\":{},\"ev\":{},\"eq\":{}", evs_json(evs), jb(&enc), evs_json(&e), eq)),
        Err(msg) => rec.panic(it.s, it.m, &enc, "decode of the encoded value", &msg),
    }
}

/// Steps behaviours printed by TLC through the real decoder and encoder.
/// A vector is [s, m, src, ev, canon, acts]; what is compared depends on the class.
pub fn replay(cfg: &Cfg) {
    let inp = cfg.input.as_ref().expect("harness: --in");
    let schemas: Vec<Schema> = read_lines(&format!("{}.sch", inp)).iter().map(Schema::from_json).collect();
    let made = Made::new(schemas, cfg.seed);
    let mut out = Out::create(&cfg.out);
    let class = cfg.class.as_str();
    let (mut n, mut used) = (0usize, 0usize);
    let mut id = 0usize;
    for_lines(inp, |v| {
        n += 1;
        let src = unb(&v["src"]);
        let acts: Vec<&str> = v["acts"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()).collect();
        let only = |ok: &[&str]| acts.iter().all(|a| *a == "Start" || ok.contains(a));
        let any = |ok: &[&str]| acts.iter().any(|a| ok.contains(a));
        let wanted = match class {
            "c01" | "c02" => true,
            "c03" => only(&["Leave", "Scalar", "Enum", "String", "Bytes", "EnterMessage"]),
            "c04" => any(&["Unknown", "Mismatch", "Invalid"]) && !any(&["Incomplete", "IncompleteUnknown", "LeaveGarbage", "Packed", "PackedMalformed", "PackedEnum"]),
            "c08" => any(&["Packed"]) && only(&["Leave", "Scalar", "Enum", "Packed"]),
            _ => false,
        };
        if !wanted {
            return;
        }
        used += 1;
        let it = made.item(&v, used / 2);
        status(cfg, &it, "replay", &src);
        if class == "c01" {
            id += 1;
            let mut rec = Rec { out: &mut out, id: id - 1 };
            outcome_of(cfg, &mut rec, &it, &src);
            return;
        }
        let want = evs_from(&v["ev"]);
        let fail = |out: &mut Out, what: &str, got: String| {
            out.line(&format!("{{\"what\":{},\"schema\":{},\"m\":{},\"src\":{},\"expected\":{},\"observed\":{}}}",
                jstr(what), it.sch.json(), it.m, jb(&src), evs_json(&want), got));
        };
        let r = guarded(|| {
            let v = decode(it.b, it.m, &src, used % 2 == 0);
            let e = flatten(&v, &it.b.ctx);
            if class != "c02" {
                return (e, None);
            }
            let enc = v.encode(&it.b.ctx).to_vec();
            let e2 = flatten(&decode(it.b, it.m, &enc, true), &it.b.ctx);
            (e, Some((enc, e2)))
        });
        match r {
            Err(msg) => fail(&mut out, "panic", jstr(&msg)),
            Ok((e, None)) => {
                if e != want {
                    fail(&mut out, "decode differs from the specification", evs_json(&e));
                }
            }
            Ok((e, Some((enc, e2)))) => {
                if v["canon"].as_bool().unwrap() && enc != src {
                    fail(&mut out, "re-encoding does not reproduce the payload", jb(&enc));
                } else if e != e2 {
                    fail(&mut out, "decoding the re-encoded bytes gives a different value", evs_json(&e2));
                }
            }
        }
    });
    cfg.summary(&format!("{{\"vectors\":{},\"used\":{}}}", n, used));
}

/// Finding F1: a packed repeated enum.  Prints what it decodes to.
pub fn probe_f1(cfg: &Cfg) {
    let mut out = Out::create(&cfg.out);
    for mult in ["Repeated", "RepeatedPacked"] {
        for parsed in [false, true] {
            let sch = Schema {
                parsed,
                dress: 0,
                msgs: vec![Msg { name: "M1".into(), fields: vec![Field { n: 1, ty: "Enum".into(), mult: mult.into(), r: 0, en: "E1".into(), opt: 0 }] }],
            };
            let b = sch.build();
            for body in [vec![], vec![1u8], vec![1, 0, 1]] {
                let mut src = vec![10u8, body.len() as u8];
                src.extend(&body);
                cfg.status(&format!("{{\"what\":\"packed enum\",\"src\":{}}}", jb(&src)));
                let ev = guarded(|| flatten(&decode(&b, 1, &src, true), &b.ctx));
                match ev {
                    Ok(e) => out.line(&format!("{{\"mult\":\"{}\",\"parsed\":{},\"src\":{},\"body\":{},\"ev\":{}}}", mult, parsed, jb(&src), jb(&body), evs_json(&e))),
                    Err(m) => out.line(&format!("{{\"mult\":\"{}\",\"parsed\":{},\"src\":{},\"body\":{},\"ev\":[],\"msg\":{}}}", mult, parsed, jb(&src), jb(&body), jstr(&m))),
                }
            }
        }
    }
}

/// Map fields in the places where a message takes a field.
pub fn probe_map(cfg: &Cfg) {
    use protofish::context::{Context, ParseError};
    let mut out = Out::create(&cfg.out);
    for key in ["int32", "string", "bool", "fixed64"] {
        for val in ["int32", "bytes", "M", ".p.M", "E"] {
            for (k, opt) in ["", " [deprecated = true]"].iter().enumerate() {
                let f = format!("map<{}, {}> f = {}{};", key, val, k + 3, opt);
                let text = if k == 0 {
                    format!("syntax = \"proto3\"; package p; enum E {{ Z = 0; }} message M {{ int32 a = 1; {} string b = 2; }}", f)
                } else {
                    format!("syntax = \"proto3\"; package p; enum E {{ Z = 0; }} message M {{ message N {{ {} }} }}", f)
                };
                cfg.status(&format!("{{\"what\":\"map field\",\"text\":{}}}", jstr(&text)));
                let o = match guarded(|| match Context::parse(&[text.as_str()]) {
                    Ok(c) => if c.get_message("p.M").is_some() { "ok" } else { "lost" },
                    Err(ParseError::SyntaxError { .. }) => "syntax",
                    Err(_) => "error",
                }) {
                    Ok(o) => o,
                    Err(_) => "panic",
                };
                out.line(&format!("{{\"out\":\"{}\",\"text\":{}}}", o, jstr(&text)));
            }
        }
    }
}

pub fn schema_of(j: &J) -> Schema {
    Schema::from_json(j)
}

/// Values printed by TLC, encoded by the real encoder (C10) and decoded again (C09).
pub fn replay_values(cfg: &Cfg) {
    let inp = cfg.input.as_ref().expect("harness: --in");
    let schemas: Vec<Schema> = read_lines(&format!("{}.sch", inp)).iter().map(Schema::from_json).collect();
    let made = Made::new(schemas, cfg.seed);
    let mut out = Out::create(&cfg.out);
    let mut n = 0;
    for_lines(inp, |v| {
        n += 1;
        let it = made.item(&v, n);
        let m = it.m;
        let evs = evs_from(&v["ev"]);
        cfg.status(&format!("{{\"class\":\"{}\",\"what\":\"encode\",\"schema\":{},\"m\":{},\"value\":{}}}", cfg.class, it.sch.json(), m, evs_json(&evs)));
        let given = unflatten(&evs, it.b.msgs[m - 1], &|n| it.b.msg_ref(n), &|n| it.b.enums[n]);
        let r = guarded(|| {
            let enc = given.encode(&it.b.ctx).to_vec();
            if cfg.class == "c10" {
                return (enc, None);
            }
            let back = decode(it.b, m, &enc, true);
            let e = flatten(&back, &it.b.ctx);
            let eq = has_nan(&evs) || back == given;
            (enc, Some((e, eq)))
        });
        let mut fail = |what: &str, got: String| {
            out.line(&format!("{{\"what\":{},\"schema\":{},\"m\":{},\"value\":{},\"expected_bytes\":{},\"observed\":{}}}",
                jstr(what), it.sch.json(), m, evs_json(&evs), v["enc"], got));
        };
        match r {
            Err(msg) => fail("panic", jstr(&msg)),
            Ok((enc, None)) => {
                if enc != unb(&v["enc"]) {
                    fail("encoding differs from the specification", jb(&enc));
                }
            }
            Ok((_, Some((e, eq)))) => {
                if e != evs || !eq {
                    fail("decoding the encoded value gives a different value", evs_json(&e));
                }
            }
        }
    });
    cfg.summary(&format!("{{\"vectors\":{},\"used\":{}}}", n, n));
}
