//! Histories of contexts in use (C22): decodes, encodes and insertions in many orders, on several
//! contexts, from several threads and in several processes.
use crate::ev::*;
use crate::meaning::{events, inputs, random_files, schema_from};
use crate::observe::{self, Probes};
use crate::registry::*;
use crate::rng::Rng;
use crate::source::{self, Tk};
use crate::util::*;
use protofish::context::*;
use serde_json::Value as J;
use std::sync::Barrier;

/// What a history starts from.
struct Setup {
    /// The group of every context, from 1.
    groups: Vec<usize>,
    files: Vec<Vec<Vec<Tk>>>,
    /// Message names of every group.
    has: Vec<Vec<String>>,
    srcs: Vec<Vec<u8>>,
}

/// One of the things done with a message.
#[derive(Clone, Debug)]
struct Use {
    enc: bool,
    c: usize,
    m: String,
    s: usize,
    via_ctx: bool,
    times: usize,
}
enum Step {
    Use(Use),
    Look(usize),
    Insert(usize, Op),
    Parallel(Vec<Vec<Use>>),
}

fn short(s: String) -> String {
    if s.len() <= 200 { s } else { format!("{}... {} {:016x}", s.chars().take(60).collect::<String>(), s.len(), fnv(s.as_bytes())) }
}

fn result(ctx: &Context, u: &Use, src: &[u8]) -> String {
    let info = match ctx.get_message(&u.m) {
        Some(i) => i,
        None => return "no such message".into(),
    };
    if !u.enc {
        return short(events(ctx, info, src, u.via_ctx));
    }
    guarded(|| {
        let v = if u.via_ctx { ctx.decode(info.self_ref, src) } else { info.decode(src, ctx) };
        short(format!("{:?}", v.encode(ctx).as_ref() as &[u8]))
    }).unwrap_or_else(|p| format!("panic: {}", p))
}

struct Log {
    lines: Vec<String>,
}
impl Log {
    fn add(&mut self, u: &Use, thread: usize, r: &str) {
        let i = self.lines.len();
        self.lines.push(format!(
            "{{\"i\":{},\"a\":\"{}\",\"c\":{},\"m\":{},\"s\":{},\"t\":{},\"times\":{},\"r\":{}}}",
            i, if u.enc { "enc" } else { "dec" }, u.c, jstr(&u.m), u.s, thread, u.times, jstr(r)
        ));
    }
    fn run(&mut self, ctx: &Context, u: &Use, src: &[u8]) {
        let mut seen: Vec<String> = vec![];
        for _ in 0..u.times {
            let r = result(ctx, u, src);
            if !seen.contains(&r) {
                seen.push(r);
            }
        }
        for r in &seen {
            self.add(u, 0, r);
        }
    }
    fn look(&mut self, c: usize, w: &World, twin: &World, pr: &Probes) {
        let i = self.lines.len();
        #[allow(clippy::eq_op)]
        let same = w.ctx == twin.ctx && twin.ctx == w.ctx || w.ctx != w.ctx;
        self.lines.push(format!(
            "{{\"i\":{},\"a\":\"look\",\"c\":{},\"r\":\"{:016x}\",\"twin\":{}}}",
            i, c, fnv(observe::context(&w.ctx, pr).as_bytes()), same
        ));
    }
}

// A context that cannot be shared between threads is used from one thread only.
struct Shared<'a>(&'a [World]);
unsafe impl Sync for Shared<'_> {}
impl Shared<'_> {
    fn ctx(&self, c: usize) -> &Context {
        &self.0[c - 1].ctx
    }
}
struct IsSync<T>(std::marker::PhantomData<T>);
trait NotShared { fn shared(&self) -> bool { false } }
impl<T> NotShared for &IsSync<T> {}
trait AreShared { fn shared(&self) -> bool { true } }
impl<T: Sync> AreShared for IsSync<T> {}
fn can_share() -> bool {
    #[allow(clippy::needless_borrow)]
    (&IsSync::<Context>(std::marker::PhantomData)).shared()
}

fn parallel(worlds: &[World], lists: &[Vec<Use>], srcs: &[Vec<u8>], log: &mut Log) {
    let shared = Shared(worlds);
    let start = Barrier::new(lists.len());
    let out: Vec<Vec<String>> = if can_share() {
        std::thread::scope(|sc| {
            let hs: Vec<_> = lists.iter().map(|l| {
                let (shared, start) = (&shared, &start);
                sc.spawn(move || {
                    start.wait();
                    l.iter().map(|u| result(shared.ctx(u.c), u, &srcs[u.s - 1])).collect::<Vec<_>>()
                })
            }).collect();
            hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
        })
    } else {
        lists.iter().map(|l| l.iter().map(|u| result(shared.ctx(u.c), u, &srcs[u.s - 1])).collect()).collect()
    };
    for (t, (l, rs)) in lists.iter().zip(out).enumerate() {
        for (u, r) in l.iter().zip(rs) {
            log.add(u, t + 1, &r);
        }
    }
}

fn world(su: &Setup, g: usize) -> World {
    let t: Vec<String> = texts_of(&su.files[g - 1]);
    World::parsed(&t, &names_of(&su.files[g - 1])).unwrap_or_else(|e| panic!("base does not parse: {}", e))
}

/// The same things on contexts nothing else was done with.
fn fresh(su: &Setup, uses: &[Use]) -> Vec<String> {
    let mut log = Log { lines: vec![] };
    for u in uses {
        let w = world(su, su.groups[u.c - 1]);
        log.run(&w.ctx, u, &su.srcs[u.s - 1]);
    }
    log.lines
}

fn script(su: &Setup, steps: &[Step], pr: &[Probes]) -> Vec<String> {
    let mut worlds: Vec<World> = su.groups.iter().map(|g| world(su, *g)).collect();
    let mut twins: Vec<World> = su.groups.iter().map(|g| world(su, *g)).collect();
    let mut log = Log { lines: vec![] };
    for c in 1..=worlds.len() {
        log.look(c, &worlds[c - 1], &twins[c - 1], &pr[c - 1]);
    }
    for st in steps {
        match st {
            Step::Use(u) => log.run(&worlds[u.c - 1].ctx, u, &su.srcs[u.s - 1]),
            Step::Look(c) => log.look(*c, &worlds[c - 1], &twins[c - 1], &pr[c - 1]),
            Step::Parallel(l) => parallel(&worlds, l, &su.srcs, &mut log),
            Step::Insert(c, op) => {
                let ok = worlds[c - 1].can(op) && worlds[c - 1].apply(op, None).0;
                if ok {
                    twins[c - 1].apply(op, None);
                }
                let i = log.lines.len();
                log.lines.push(format!("{{\"i\":{},\"a\":\"ins\",\"c\":{},\"ok\":{}}}", i, c, ok));
            }
        }
    }
    log.lines
}

fn record(cfg: &Cfg, id: usize, su: &Setup, uses: &[Use], steps: &[Step], pr: &[Probes], first: bool) -> String {
    let names: Vec<String> = su.has.iter().map(|l| serde_json::to_string(l).unwrap()).collect();
    let files: Vec<String> = su.files.iter().map(|f| serde_json::to_string(&texts_of(f)).unwrap()).collect();
    let srcs: Vec<String> = su.srcs.iter().map(|s| jb(&s[..s.len().min(400)])).collect();
    let head = format!(
        "\"groups\":{:?},\"has\":[{}],\"texts\":[{}],\"srcs\":[{}]", su.groups, names.join(","), files.join(","), srcs.join(",")
    );
    cfg.status(&format!("{{\"id\":{},{}}}", id, head));
    let mut runs = vec![];
    let r = guarded(|| {
        if first {
            runs.push(fresh(su, uses));
        }
        runs.push(script(su, steps, pr));
    });
    let (fate, why) = match r {
        Ok(()) => ("", String::new()),
        Err(p) => ("panic", p),
    };
    let runs: Vec<String> = runs.iter().map(|r| format!("[{}]", r.join(","))).collect();
    format!("{{\"id\":{},\"kind\":\"history\",\"fate\":\"{}\",\"why\":{},{},\"runs\":[{}]}}", id, fate, jstr(&why), head, runs.join(","))
}

/// Everything with every message of every context that started with it.
fn all_uses(su: &Setup) -> Vec<Use> {
    let mut v = vec![];
    for (i, g) in su.groups.iter().enumerate() {
        for m in &su.has[g - 1] {
            for s in 1..=su.srcs.len() {
                v.push(Use { enc: false, c: i + 1, m: m.clone(), s, via_ctx: true, times: 1 });
            }
        }
    }
    v
}
fn insertions(steps: &[Step], c: usize) -> Vec<Op> {
    steps.iter().filter_map(|s| match s { Step::Insert(x, op) if *x == c => Some(op.clone()), _ => None }).collect()
}

fn scripted(cfg: &Cfg, path: &str, rev: bool, out: &mut Vec<String>) {
    let mut lines = read_lines(path).into_iter();
    let g = lines.next().expect("harness: groups");
    let list = |j: &J| -> Vec<String> { j.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
    let su = Setup {
        groups: g["groups"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        files: g["files"].as_array().unwrap().iter().map(source::files_from).collect(),
        has: g["has"].as_array().unwrap().iter().map(list).collect(),
        srcs: g["srcs"].as_array().unwrap().iter().map(unb).collect(),
    };
    let mut scripts: Vec<(usize, J)> = lines.enumerate().collect();
    if rev {
        scripts.reverse();
    }
    for (id, j) in scripts {
        let mut steps: Vec<Step> = j["ops"].as_array().unwrap().iter().map(|o| {
            let c = o["c"].as_u64().unwrap() as usize;
            match o["a"].as_str().unwrap() {
                "look" => Step::Look(c),
                "ins" => Step::Insert(c, op_from(&o["op"])),
                a => Step::Use(Use {
                    enc: a == "enc", c, m: o["m"].as_str().unwrap().into(), s: o["s"].as_u64().unwrap() as usize,
                    via_ctx: (o["via"].as_str() != Some("msg")) != rev, times: 1,
                }),
            }
        }).collect();
        // Afterwards everything once more.
        let mut after = all_uses(&su);
        if rev {
            after.reverse();
        }
        for (i, mut u) in after.clone().into_iter().enumerate() {
            u.via_ctx = (i % 2 == 0) != rev;
            u.enc = (i + id) % 5 == 0;
            steps.push(Step::Use(u));
        }
        for c in 1..=su.groups.len() {
            steps.push(Step::Look(c));
        }
        let pr: Vec<Probes> = (1..=su.groups.len()).map(|c| {
            reg_probes(&su.files[su.groups[c - 1] - 1], &insertions(&steps, c), &mut Rng::new(7))
        }).collect();
        let uses: Vec<Use> = if rev { vec![] } else {
            let mut u = all_uses(&su);
            u.retain(|u| u.c != 2);
            u
        };
        out.push(record(cfg, id, &su, &uses, &steps, &pr, !rev && id % 8 == 0));
    }
}

/// Two sources that parse, with what was made up for them.
fn random_setup(rng: &mut Rng) -> Setup {
    loop {
        let files: Vec<Vec<Vec<Tk>>> = (0..2).map(|_| random_files(rng, "c22")).collect();
        let mut has = vec![];
        let mut srcs: Vec<Vec<u8>> = vec![];
        for f in &files {
            // Which texts parse is not the question here: a source that does not is drawn again.
            if let Ok(Ok(ctx)) = guarded(|| Context::parse(&texts_of(f))) {
                let mut names: Vec<String> = names_of(f).into_iter().map(|x| x.0).filter(|n| ctx.get_message(n).is_some()).collect();
                names.sort();
                names.dedup();
                let s = schema_from(&ctx, &names);
                srcs.extend(inputs(rng, &s, 4).into_iter().map(|x| x.1));
                has.push(names);
            }
        }
        if has.len() < 2 || has.iter().any(|l| l.is_empty()) {
            continue;
        }
        // A long one.
        if rng.chance(10) {
            let one = rng.pick(&srcs).clone();
            if !one.is_empty() {
                srcs.push(one.iter().copied().cycle().take(one.len() * (70_000 / one.len() + 1)).collect());
            }
        }
        srcs.push(vec![]);
        let groups = match rng.below(3) { 0 => vec![1, 1, 2], 1 => vec![1, 2], _ => vec![1, 2, 1, 2] };
        return Setup { groups, files, has, srcs };
    }
}

fn random_steps(su: &Setup, ops: &[Vec<Op>], pool: &[Use], rng: &mut Rng, long: bool) -> Vec<Step> {
    let n = su.groups.len();
    let mut own: Vec<Use> = vec![];
    let mut at = vec![0; n];
    let mut steps = vec![];
    let some = |rng: &mut Rng, own: &[Use]| {
        let mut u = if !own.is_empty() && rng.chance(30) { rng.pick(own).clone() } else { rng.pick(pool).clone() };
        // The same in another context of the group.
        if su.has[su.groups[u.c - 1] - 1].contains(&u.m) {
            let same: Vec<usize> = (1..=n).filter(|c| su.groups[c - 1] == su.groups[u.c - 1]).collect();
            u.c = *rng.pick(&same);
        }
        u.via_ctx = rng.chance(50);
        u.enc = rng.chance(20);
        u
    };
    let count = if long { 1500 } else { rng.range(30, 90) };
    if long {
        // Once with more repetitions than a narrow counter counts.
        if let Some(u) = pool.iter().find(|u| !su.srcs[u.s - 1].is_empty() && su.srcs[u.s - 1].len() < 40) {
            steps.push(Step::Use(Use { times: 66000, ..u.clone() }));
        }
    }
    for _ in 0..count {
        match rng.weighted(&[70, 8, 12, 3, 2]) {
            0 => steps.push(Step::Use(some(rng, &own))),
            1 => steps.push(Step::Look(rng.range(1, n))),
            2 => {
                let c = rng.range(1, n);
                if at[c - 1] < ops[c - 1].len() {
                    let op = ops[c - 1][at[c - 1]].clone();
                    at[c - 1] += 1;
                    if let Op::Type { k, name, in_pkg, up, .. } = &op {
                        if k == "message" {
                            let full = if *in_pkg && up.is_empty() { name.clone() } else { format!("{}.{}", up, name) };
                            own.push(Use { enc: false, c, m: full, s: rng.range(1, su.srcs.len()), via_ctx: true, times: 1 });
                        }
                    }
                    steps.push(Step::Insert(c, op));
                }
            }
            3 => {
                let mut u = some(rng, &own);
                u.times = *rng.pick(&[3, 20, 300]);
                if su.srcs[u.s - 1].len() > 1000 { u.times = 3 }
                steps.push(Step::Use(u));
            }
            _ => {
                let lists = (0..rng.range(2, 6)).map(|_| (0..rng.range(5, 25)).map(|_| some(rng, &own)).collect()).collect();
                steps.push(Step::Parallel(lists));
            }
        }
    }
    for c in 1..=n {
        steps.push(Step::Look(c));
    }
    steps
}

pub fn record_histories(cfg: &Cfg) {
    let rev = cfg.extra.iter().any(|x| x == "--order=backwards");
    let mut lines = vec![];
    if let Some(p) = &cfg.input {
        scripted(cfg, p, rev, &mut lines);
    } else {
        let mut ids: Vec<usize> = (0..cfg.n).collect();
        if rev {
            ids.reverse();
        }
        for id in ids {
            // What is there is the same in every process; what is done with it is not.
            let mut rng = Rng::new(cfg.seed.wrapping_mul(86028121) ^ (id as u64 + 1).wrapping_mul(0x9e37_79b9));
            let mut su = random_setup(&mut rng);
            if id % 100 == 50 {
                // The same payloads with something changed.
                for _ in 0..60 {
                    let mut s = rng.pick(&su.srcs).clone();
                    if s.is_empty() || s.len() > 1000 { continue }
                    let i = rng.below(s.len());
                    match rng.below(3) { 0 => s[i] ^= 1, 1 => { s.truncate(i); } _ => { let j = rng.below(s.len()); s.swap(i, j) } }
                    if !su.srcs.contains(&s) { su.srcs.push(s) }
                }
            }
            let ops: Vec<Vec<Op>> = su.groups.iter().map(|g| random_ops(&mut rng, &su.files[g - 1], 8)).collect();
            let long = id % 100 == 50;
            let mut pool = vec![];
            for _ in 0..(if long { 400 } else { rng.range(6, 14) }) {
                let c = rng.range(1, su.groups.len());
                let m = rng.pick(&su.has[su.groups[c - 1] - 1]).clone();
                pool.push(Use { enc: false, c, m, s: rng.range(1, su.srcs.len()), via_ctx: true, times: 1 });
            }
            let pr: Vec<Probes> = (0..su.groups.len()).map(|c| reg_probes(&su.files[su.groups[c] - 1], &ops[c], &mut rng)).collect();
            let mut order = Rng::new(rng.next() ^ if rev { 0x5555 } else { 0 });
            let steps = random_steps(&su, &ops, &pool, &mut order, long);
            lines.push(record(cfg, id, &su, &pool, &steps, &pr, !rev));
        }
    }
    let mut out = Out::create(&cfg.out);
    for l in lines {
        out.line(&l);
    }
}
