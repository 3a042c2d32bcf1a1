//! Contexts of arbitrary sources in use: rearranged files, contexts built by hand, shared contexts.
use crate::ev::*;
use crate::gen::{self, payload};
use crate::observe::{self, Probes};
use crate::registry::*;
use crate::rng::Rng;
use crate::schema::*;
use crate::source::{self, Tk, GENERAL};
use crate::util::*;
use protofish::context::*;
use std::collections::HashMap;

/// The messages of a context as a schema for the payload generator; names are full names.
pub fn schema_from(ctx: &Context, names: &[String]) -> Schema {
    let found: Vec<&MessageInfo> = names.iter().filter_map(|n| ctx.get_message(n)).collect();
    let at: HashMap<&str, usize> = found.iter().enumerate().map(|(i, m)| (m.full_name.as_str(), i + 1)).collect();
    let msgs = found.iter().map(|m| {
        let mut fs: Vec<Field> = m.iter_fields().filter_map(|f| {
            let (ty, full, _) = observe::type_name(ctx, &f.field_type);
            let r = if ty == "Message" { *at.get(full.as_str())? } else { 0 };
            Some(Field {
                n: f.number, ty: ty.into(), mult: observe::mult(&f.multiplicity).into(), r,
                en: if ty == "Enum" { full } else { String::new() }, opt: 0,
            })
        }).collect();
        fs.sort_by_key(|f| f.n);
        Msg { name: m.full_name.clone(), fields: fs }
    }).collect();
    Schema { msgs, parsed: true, dress: 0 }
}

pub fn events(ctx: &Context, m: &MessageInfo, src: &[u8], via_ctx: bool) -> String {
    guarded(|| {
        let v = if via_ctx { ctx.decode(m.self_ref, src) } else { m.decode(src, ctx) };
        let ev = flatten(&v, ctx);
        // The message itself, not only its fields.
        format!("{}:{}", msg_name(ctx, v.msg_ref), evs_json(&ev))
    }).unwrap_or_else(|p| format!("panic: {}", p))
}

/// Some payloads for some messages.
pub fn inputs(rng: &mut Rng, s: &Schema, n: usize) -> Vec<(String, Vec<u8>)> {
    if s.msgs.is_empty() {
        return vec![];
    }
    let full: Vec<usize> = (1..=s.msgs.len()).filter(|i| !s.msgs[i - 1].fields.is_empty()).collect();
    (0..n).map(|_| {
        let m = if !full.is_empty() && rng.chance(85) { *rng.pick(&full) } else { rng.range(1, s.msgs.len()) };
        let mix = if rng.chance(70) { gen::VALID } else { gen::ALL };
        (s.msgs[m - 1].name.clone(), payload(rng, s, m, &mix, 3))
    }).collect()
}

// ---------------------------------------------------------------------------
// Rearranged files (C23)
// ---------------------------------------------------------------------------

/// Top-level statements of a file: its package statement, and the rest without the head.
fn pieces(file: &[Tk]) -> (Vec<Tk>, Vec<Vec<Tk>>) {
    let (mut depth, mut now, mut out, mut pkg) = (0, vec![], vec![], vec![]);
    for t in file {
        now.push(t.clone());
        if *t == Tk::Sym('{') { depth += 1 }
        if *t == Tk::Sym('}') { depth -= 1 }
        if depth == 0 && (*t == Tk::Sym(';') || *t == Tk::Sym('}')) {
            let s = std::mem::take(&mut now);
            match &s[0] {
                Tk::Id(w) if w == "syntax" => {}
                Tk::Id(w) if w == "package" => pkg = s,
                _ => out.push(s),
            }
        }
    }
    (pkg, out)
}
fn head() -> Vec<Tk> {
    vec![source::id("syntax"), Tk::Sym('='), Tk::Str('"', b"proto3".to_vec()), Tk::Sym(';')]
}

/// The declarations dealt out again, over a random number of files per package.
fn redeal(files: &[Vec<Tk>], rng: &mut Rng) -> Vec<Vec<Tk>> {
    let mut by: Vec<(Vec<Tk>, Vec<Vec<Tk>>)> = vec![];
    for f in files {
        let (p, ds) = pieces(f);
        match by.iter_mut().find(|(q, _)| *q == p) {
            Some((_, l)) => l.extend(ds),
            None => by.push((p, ds)),
        }
    }
    let mut out: Vec<Vec<Tk>> = vec![];
    for (p, mut ds) in by {
        rng.shuffle(&mut ds);
        let k = rng.range(1, 3);
        let mut parts: Vec<Vec<Tk>> = (0..k).map(|_| { let mut h = head(); h.extend(p.iter().cloned()); h }).collect();
        for d in ds {
            let i = rng.below(k);
            parts[i].extend(d);
        }
        out.extend(parts);
    }
    rng.shuffle(&mut out);
    out
}

fn arrangement_record(cfg: &Cfg, idn: usize, variants: &[Vec<Vec<Tk>>], rng: &mut Rng) -> String {
    let mut pr = source::scan(&variants[0], rng);
    pr.names.extend(names_of(&variants[0]).into_iter().map(|x| x.0));
    pr.names.sort();
    pr.names.dedup();
    let mut ins: Option<Vec<(String, Vec<u8>)>> = None;
    let mut vs = vec![];
    for v in variants {
        let t = source::render_all(v, rng, source::Style::Plain);
        cfg.status(&serde_json::to_string(&t).unwrap());
        let out = observe::parse(&t, &pr);
        let mut dec = vec![];
        if out.starts_with("{\"ok\":true") {
            if let Ok(Ok(ctx)) = guarded(|| Context::parse(&t)) {
                if ins.is_none() {
                    let s = schema_from(&ctx, &pr.names);
                    ins = Some(inputs(rng, &s, 6));
                }
                for (m, src) in ins.as_ref().unwrap() {
                    dec.push(jstr(&match ctx.get_message(m) {
                        Some(i) => events(&ctx, i, src, true),
                        None => "no such message".into(),
                    }));
                }
            }
        }
        vs.push(format!("{{\"files\":{},\"out\":{},\"dec\":[{}]}}", source::files_json(v), out, dec.join(",")));
    }
    let ins: Vec<String> = ins.unwrap_or_default().iter().map(|(m, s)| format!("[{},{}]", jstr(m), jb(s))).collect();
    format!("{{\"id\":{},\"kind\":\"rearranged\",\"inputs\":[{}],\"variants\":[{}]}}", idn, ins.join(","), vs.join(","))
}

/// Sources with one large dimension, a different one for every k.
pub fn large_files(rng: &mut Rng, class: &str, k: usize) -> Vec<Vec<Tk>> {
    use source::Many::*;
    for j in k.. {
        for _ in 0..40 {
            let d = source::set_many(rng, j, true);
            // Rebuilding by hand takes no services and no options.
            if class == "c19" && [Rpcs, Services, RpcOptions, Options, Statements, Text, Digits].contains(&d) { break }
            let files = random_files(rng, class);
            if !source::clear_many() && files.iter().map(|f| f.len()).sum::<usize>() < 8000 { return files }
        }
        source::clear_many();
    }
    unreachable!()
}
pub fn random_files(rng: &mut Rng, class: &str) -> Vec<Vec<Tk>> {
    let mut o = GENERAL.clone();
    o.options = 0;
    o.keywords = 3;
    match class {
        "c25" => { o.services = 5; o.depth = 3; o.fields = 6; o.files = 2; o.literals = 8; o.repeated = 40; o.options = 10; o.names = 6; o.relative = 80 }
        "c19" => { o.services = 0; o.depth = 3; o.fields = 5; o.files = 2; o.literals = 10 }
        _ => { o.names = 4; o.depth = 2; o.width = 3; o.fields = 3; o.files = 3; o.relative = 90; o.literals = 5; o.options = 8;
               o.errors = *rng.pick(&[0, 0, 0, 5]) }
    }
    let mut files = source::Gen::new(rng, o).files();
    if class == "c19" {
        files.iter_mut().for_each(|f| *f = tidy(f));
    }
    files
}

/// Without field options, with the numbers of each oneof ascending and the numbers of each enum distinct.
fn tidy(file: &[Tk]) -> Vec<Tk> {
    let mut plain = vec![];
    let mut inside = false;
    for t in file {
        match t {
            Tk::Sym('[') => inside = true,
            Tk::Sym(']') => inside = false,
            _ if !inside => plain.push(t.clone()),
            _ => {}
        }
    }
    let number = |t: &Tk| match t {
        Tk::Int(s) if s.len() > 1 && s.starts_with("0x") | s.starts_with("0X") => u64::from_str_radix(&s[2..], 16).unwrap_or(0),
        Tk::Int(s) if s.len() > 1 && s.starts_with('0') => u64::from_str_radix(&s[1..], 8).unwrap_or(0),
        Tk::Int(s) => s.parse().unwrap_or(0),
        _ => 0,
    };
    let mut out: Vec<Tk> = vec![];
    let mut i = 0;
    while i < plain.len() {
        let block = i + 2 < plain.len() && plain[i + 2] == Tk::Sym('{');
        let word = |w: &str| plain[i] == source::id(w);
        if block && (word("oneof") || word("enum")) {
            let end = i + plain[i..].iter().position(|t| *t == Tk::Sym('}')).unwrap_or(plain.len() - i - 1);
            let mut body: Vec<Vec<Tk>> = plain[i + 3..end].split(|t| *t == Tk::Sym(';')).map(|s| s.to_vec()).collect();
            let is_member = |s: &Vec<Tk>| s.len() > 2 && s[0] != source::id("option") && matches!(s[s.len() - 1], Tk::Int(_));
            if word("oneof") {
                let mut nums: Vec<Tk> = body.iter().filter(|s| is_member(s)).map(|s| s[s.len() - 1].clone()).collect();
                nums.sort_by_key(number);
                let mut it = nums.into_iter();
                for s in body.iter_mut().filter(|s| is_member(s)) {
                    *s.last_mut().unwrap() = it.next().unwrap();
                }
            } else {
                let mut seen = vec![];
                body.retain(|s| {
                    let key = (s.contains(&Tk::Sym('-')), s.last().map(number).unwrap_or(0));
                    !is_member(s) || if seen.contains(&key) { false } else { seen.push(key); true }
                });
            }
            out.extend(plain[i..i + 3].iter().cloned());
            out.extend(body.join(&Tk::Sym(';')));
            i = end;
        } else {
            out.push(plain[i].clone());
            i += 1;
        }
    }
    out
}

pub fn record_arrangements(cfg: &Cfg) {
    let mut out = Out::create(&cfg.out);
    let mut rng = Rng::new(cfg.seed.wrapping_mul(15485863) ^ 23);
    let mut i = 0;
    if let Some(p) = &cfg.input {
        for_lines(p, |j| {
            let mut vs: Vec<Vec<Vec<Tk>>> = vec![];
            for v in j["variants"].as_array().unwrap() {
                let f = source::files_from(v);
                if !vs.contains(&f) { vs.push(f) }
            }
            if vs.len() > 1 {
                out.line(&arrangement_record(cfg, i, &vs, &mut rng));
                i += 1;
            }
        });
        return;
    }
    while i < cfg.n {
        let files = random_files(&mut rng, "c23");
        let mut vs = vec![files.clone()];
        let mut p = files.clone();
        rng.shuffle(&mut p);
        for v in [p, redeal(&files, &mut rng), redeal(&files, &mut rng)] {
            if !vs.contains(&v) { vs.push(v) }
        }
        if vs.len() > 1 {
            out.line(&arrangement_record(cfg, i, &vs, &mut rng));
            i += 1;
        }
    }
}

/// Sources only, as lines {files} for the specification.
pub fn sources(cfg: &Cfg) {
    let mut out = Out::create(&cfg.out);
    let mut rng = Rng::new(cfg.seed.wrapping_mul(32452843) ^ fnv(cfg.class.as_bytes()));
    let large = cfg.extra.iter().any(|e| e == "--big=1");
    for k in 0..cfg.n {
        let files = if large { large_files(&mut rng, &cfg.class, k) } else { random_files(&mut rng, &cfg.class) };
        out.line(&format!("{{\"files\":{}}}", source::files_json(&files)));
    }
}

// ---------------------------------------------------------------------------
// Contexts built by hand (C19)
// ---------------------------------------------------------------------------

/// References every type is going to have: those of an otherwise empty context with the same types.
fn references(ops: &[Op]) -> HashMap<String, TypeRef> {
    let mut w = World::new();
    for op in ops {
        let bare = match op {
            Op::Type { k, name, in_pkg, up, .. } => Op::Type { k: k.clone(), name: name.clone(), in_pkg: *in_pkg, up: up.clone(), members: vec![] },
            o => o.clone(),
        };
        if !w.apply(&bare, None).0 { break }
    }
    w.held.into_iter().collect()
}

pub fn record_rebuilds(cfg: &Cfg) {
    let mut out = Out::create(&cfg.out);
    let mut rng = Rng::new(cfg.seed.wrapping_mul(49979687) ^ 19);
    let mut id = 0;
    for_lines(cfg.input.as_ref().expect("harness: --in"), |j| {
        let files = source::files_from(&j["files"]);
        let texts = source::render_all(&files, &mut rng, source::Style::Plain);
        for (w, ops) in j["ways"].as_array().unwrap().iter().enumerate() {
            let ops: Vec<Op> = ops.as_array().unwrap().iter().map(op_from).collect();
            cfg.status(&format!("{{\"texts\":{},\"ops\":{}}}", serde_json::to_string(&texts).unwrap(), ops_json(&ops)));
            let mut pr = source::scan(&files, &mut rng);
            pr.names.extend(names_of(&files).into_iter().map(|x| x.0));
            pr.names.sort();
            pr.names.dedup();
            let r = guarded(|| {
                let parsed = Context::parse(&texts).map_err(|e| e.to_string())?;
                let refs = references(&ops);
                let mut world = World::new();
                let accepted = ops.iter().all(|op| world.can(op) && world.apply(op, Some(&refs)).0);
                let hand = world.ctx;
                let s = schema_from(&parsed, &pr.names);
                let dec: Vec<String> = inputs(&mut rng, &s, 6).iter().map(|(m, src)| {
                    let side = |c: &Context| match c.get_message(m) {
                        Some(i) => events(c, i, src, true),
                        None => "no such message".into(),
                    };
                    format!("{{\"m\":{},\"src\":{},\"hand\":{},\"parsed\":{}}}", jstr(m), jb(src), jstr(&side(&hand)), jstr(&side(&parsed)))
                }).collect();
                let looks = observe::context(&hand, &pr) == observe::context(&parsed, &pr);
                Ok::<_, String>(format!(
                    "\"accepted\":{},\"eq\":{},\"qe\":{},\"looks\":{},\"dec\":[{}]",
                    accepted, hand == parsed, parsed == hand, looks, dec.join(",")
                ))
            });
            let (fate, rest) = match r {
                Ok(Ok(s)) => ("", s),
                Ok(Err(e)) => ("unparsed", format!("\"accepted\":false,\"eq\":false,\"qe\":false,\"looks\":false,\"dec\":[],\"why\":{}", jstr(&e))),
                Err(p) => ("panic", format!("\"accepted\":false,\"eq\":false,\"qe\":false,\"looks\":false,\"dec\":[],\"why\":{}", jstr(&p))),
            };
            out.line(&format!(
                "{{\"id\":{},\"kind\":\"rebuild\",\"way\":{},\"fate\":\"{}\",\"files\":{},\"ops\":{},{}}}",
                id, w + 1, fate, source::files_json(&files), ops_json(&ops), rest
            ));
            id += 1;
        }
    });
}

// ---------------------------------------------------------------------------
// Payloads of the messages of a source (C25)
// ---------------------------------------------------------------------------

fn payload_case(ctx: &Context, m: &str, src: &[u8], rng: &mut Rng) -> String {
    let i = ctx.get_message(m).expect("declared message is not found");
    let v = if rng.chance(50) { ctx.decode(i.self_ref, src) } else { i.decode(src, ctx) };
    format!(
        "{{\"m\":{},\"src\":{},\"root\":{},\"ev\":{},\"enc\":{}}}",
        jstr(m), jb(src), jstr(&msg_name(ctx, v.msg_ref)), evs_json(&flatten(&v, ctx)), jb(&v.encode(ctx))
    )
}

/// The sources and payloads of the specification, and random payloads for the same sources.
pub fn record_payloads(cfg: &Cfg) {
    let mut out = Out::create(&cfg.out);
    let mut rng = Rng::new(cfg.seed.wrapping_mul(86028121) ^ 25);
    let mut id = 0;
    for_lines(cfg.input.as_ref().expect("harness: --in"), |j| {
        let files = source::files_from(&j["files"]);
        let texts = source::render_all(&files, &mut rng, source::Style::Plain);
        cfg.status(&format!("{{\"texts\":{}}}", serde_json::to_string(&texts).unwrap()));
        let mut names = source::scan(&files, &mut rng).names;
        names.extend(names_of(&files).into_iter().map(|x| x.0));
        names.sort();
        names.dedup();
        let r = guarded(|| {
            let ctx = Context::parse(&texts).map_err(|e| e.to_string())?;
            let mut cases: Vec<(String, Vec<u8>)> =
                j["cases"].as_array().unwrap().iter().map(|c| (c["m"].as_str().unwrap().to_string(), unb(&c["src"]))).collect();
            let s = schema_from(&ctx, &names);
            cases.extend(inputs(&mut rng, &s, 4));
            Ok::<_, String>(cases.iter().map(|(m, src)| payload_case(&ctx, m, src, &mut rng)).collect::<Vec<_>>().join(","))
        });
        let (fate, dec, why) = match r {
            Ok(Ok(d)) => ("", d, String::new()),
            Ok(Err(e)) => ("unparsed", String::new(), e),
            Err(p) => ("panic", String::new(), p),
        };
        out.line(&format!(
            "{{\"id\":{},\"kind\":\"payloads\",\"fate\":\"{}\",\"why\":{},\"files\":{},\"dec\":[{}],\"texts\":{}}}",
            id, fate, jstr(&why), source::files_json(&files), dec, serde_json::to_string(&texts).unwrap()
        ));
        id += 1;
    });
}
