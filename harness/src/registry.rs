//! Histories of modifications, of one type and of a context.
use crate::ev::*;
use crate::observe::{self, Probes};
use crate::rng::Rng;
use crate::schema::{multiplicity, scalar_type, SCALARS};
use crate::source::{self, Tk};
use crate::util::*;
use protofish::context::*;
use serde_json::Value as J;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Member {
    Field { num: u64, name: String, ty: String, rf: String, mult: String, oo: usize },
    Oneof { name: String, nums: Vec<u64> },
    Value { num: i64, name: String },
}
use Member::{Field, Value};

#[derive(Clone, Debug)]
pub enum Op {
    Package(String),
    Type { k: String, name: String, in_pkg: bool, up: String, members: Vec<Member> },
}

// ---------------------------------------------------------------------------
// JSON of the specification
// ---------------------------------------------------------------------------

pub fn member_json(m: &Member) -> String {
    match m {
        Field { num, name, ty, rf, mult, oo } => format!(
            "{{\"op\":\"field\",\"num\":{},\"name\":{},\"ty\":\"{}\",\"ref\":{},\"mult\":\"{}\",\"oo\":{},\"opts\":[]}}",
            jb(&trim(*num)), jstr(name), ty, jstr(rf), mult, oo
        ),
        Member::Oneof { name, nums } => {
            let n: Vec<String> = nums.iter().map(|n| jb(&trim(*n))).collect();
            format!("{{\"op\":\"oneof\",\"name\":{},\"nums\":[{}],\"opts\":[]}}", jstr(name), n.join(","))
        }
        Value { num, name } => format!("{{\"op\":\"value\",\"num\":{},\"name\":{},\"opts\":[]}}", jb(&num.to_le_bytes()), jstr(name)),
    }
}
pub fn members_json(ms: &[Member]) -> String {
    format!("[{}]", ms.iter().map(member_json).collect::<Vec<_>>().join(","))
}
pub fn member_from(j: &J) -> Member {
    let s = |k: &str| j[k].as_str().unwrap_or("").to_string();
    match j["op"].as_str().unwrap() {
        "field" => Field {
            num: untrim(&unb(&j["num"])), name: s("name"), ty: s("ty"), rf: s("ref"), mult: s("mult"),
            oo: j["oo"].as_u64().unwrap() as usize,
        },
        "oneof" => Member::Oneof { name: s("name"), nums: j["nums"].as_array().unwrap().iter().map(|n| untrim(&unb(n))).collect() },
        "value" => {
            let mut b = [0u8; 8];
            b.copy_from_slice(&unb(&j["num"]));
            Value { num: i64::from_le_bytes(b), name: s("name") }
        }
        o => panic!("harness: op {}", o),
    }
}
pub fn op_json(o: &Op) -> String {
    match o {
        Op::Package(n) => format!("{{\"op\":\"package\",\"name\":{}}}", jstr(n)),
        Op::Type { k, name, in_pkg, up, members } => format!(
            "{{\"op\":\"type\",\"k\":\"{}\",\"name\":{},\"in\":\"{}\",\"up\":{},\"members\":{}}}",
            k, jstr(name), if *in_pkg { "pkg" } else { "msg" }, jstr(up), members_json(members)
        ),
    }
}
pub fn ops_json(os: &[Op]) -> String {
    format!("[{}]", os.iter().map(op_json).collect::<Vec<_>>().join(","))
}
pub fn op_from(j: &J) -> Op {
    let s = |k: &str| j[k].as_str().unwrap_or("").to_string();
    match j["op"].as_str().unwrap() {
        "package" => Op::Package(s("name")),
        _ => Op::Type {
            k: s("k"), name: s("name"), in_pkg: s("in") == "pkg", up: s("up"),
            members: j["members"].as_array().unwrap().iter().map(member_from).collect(),
        },
    }
}

// ---------------------------------------------------------------------------
// Members
// ---------------------------------------------------------------------------

/// References to the oneofs at the first positions of any message.
fn oneof_refs(n: usize) -> Vec<OneofRef> {
    let mut m = MessageInfo::new("x".into(), some_parent());
    (0..n).map(|i| m.add_oneof(protofish::context::Oneof::new(format!("o{}", i))).expect("harness: oneof")).collect()
}
fn some_parent() -> TypeParent {
    TypeParent::Package(Context::new().insert_package(Package::new(None)).expect("harness: package"))
}

fn result(r: &Result<(), (&'static str, Vec<u8>)>) -> String {
    match r {
        Ok(()) => "{\"ok\":true,\"err\":\"\",\"n\":[]}".into(),
        Err((e, n)) => format!("{{\"ok\":false,\"err\":\"{}\",\"n\":{}}}", e, jb(n)),
    }
}

pub type Resolve<'a> = &'a dyn Fn(&str, &str) -> ValueType;

pub fn apply_message(m: &mut MessageInfo, op: &Member, oo: &[OneofRef], resolve: Resolve) -> Result<(), (&'static str, Vec<u8>)> {
    match op {
        Field { num, name, ty, rf, mult, oo: o } => {
            let mut f = MessageField::new(name.clone(), *num, if rf.is_empty() { scalar_type(ty) } else { resolve(ty, rf) });
            f.multiplicity = multiplicity(mult);
            f.oneof = if *o == 0 { None } else { Some(oo[*o - 1]) };
            m.add_field(f).map_err(|e| match e {
                MemberInsertError::NumberConflict => ("number", vec![]),
                MemberInsertError::NameConflict => ("name", vec![]),
                MemberInsertError::MissingOneof => ("oneof", vec![]),
                _ => ("?", vec![]),
            })
        }
        Member::Oneof { name, nums } => {
            let mut o = protofish::context::Oneof::new(name.clone());
            o.fields = nums.clone();
            m.add_oneof(o).map(|_| ()).map_err(|e| match e {
                OneofInsertError::NameConflict => ("name", vec![]),
                OneofInsertError::FieldNotFound { field } => ("missing", trim(field)),
                OneofInsertError::FieldConflict { field } => ("conflict", trim(field)),
                _ => ("?", vec![]),
            })
        }
        Value { .. } => panic!("harness: value in a message"),
    }
}
pub fn apply_enum(m: &mut EnumInfo, op: &Member) -> Result<(), (&'static str, Vec<u8>)> {
    match op {
        Value { num, name } => m.add_field(EnumField::new(name.clone(), *num)).map_err(|e| match e {
            MemberInsertError::NumberConflict => ("number", vec![]),
            MemberInsertError::NameConflict => ("name", vec![]),
            _ => ("?", vec![]),
        }),
        _ => panic!("harness: not a value"),
    }
}

fn probes_of(ops: &[Member], pr: &mut Probes) {
    for o in ops {
        match o {
            Field { num, name, .. } => { pr.nums.push(*num); pr.nums.push(num.wrapping_add(1)); pr.idents.push(name.clone()) }
            Member::Oneof { name, nums } => { pr.idents.push(name.clone()); pr.nums.extend(nums) }
            Value { num, .. } => { pr.values.push(*num); pr.values.push(num.wrapping_add(1)) }
        }
    }
    for v in [&mut pr.nums] { v.sort(); v.dedup(); }
    pr.values.sort();
    pr.values.dedup();
    pr.idents.push("none".into());
    pr.idents.sort();
    pr.idents.dedup();
}
pub fn no_probes() -> Probes {
    Probes { names: vec![], nums: vec![], idents: vec![], values: vec![], rpcs: vec![] }
}

/// One history of one type: results, what is seen after every operation, and whether a twin that
/// only saw the accepted operations is equal.
fn members_history(cfg: &Cfg, id: usize, k: &str, ops: &[Member], rng: Option<&mut Rng>) -> String {
    // Of a long history not everything is looked at after every operation.
    let mut look = vec![true; ops.len()];
    if let Some(rng) = rng {
        let n = look.len();
        look.iter_mut().enumerate().for_each(|(i, x)| *x = i + 1 == n || rng.chance(4));
    }
    let body = members_json(ops);
    cfg.status(&format!("{{\"k\":\"{}\",\"ops\":{}}}", k, body));
    let mut pr = no_probes();
    probes_of(ops, &mut pr);
    let oo = oneof_refs(ops.len() + 3);
    let none: Resolve = &|_, _| panic!("harness: reference in members history");
    let scalar = |t: &ValueType| observe::type_name(&Context::new(), t);
    let r = guarded(|| {
        let (mut res, mut obs, mut eq) = (vec![], vec![], vec![]);
        if k == "message" {
            let mut m = MessageInfo::new("M".into(), some_parent());
            let mut t = MessageInfo::new("M".into(), some_parent());
            for op in ops {
                let x = apply_message(&mut m, op, &oo, none);
                let mut same = true;
                if x.is_ok() {
                    same = apply_message(&mut t, op, &oo, none).is_ok();
                }
                res.push(result(&x));
                obs.push(if look[obs.len()] { format!("{{{}}}", observe::members(&m, &pr, &scalar)) } else { "{}".into() });
                eq.push((same && m == t).to_string());
            }
        } else {
            let mut m = EnumInfo::new("M".into(), some_parent());
            let mut t = EnumInfo::new("M".into(), some_parent());
            for op in ops {
                let x = apply_enum(&mut m, op);
                let mut same = true;
                if x.is_ok() {
                    same = apply_enum(&mut t, op).is_ok();
                }
                res.push(result(&x));
                obs.push(if look[obs.len()] { format!("{{{}}}", observe::values(&m, &pr)) } else { "{}".into() });
                eq.push((same && m == t).to_string());
            }
        }
        format!("\"res\":[{}],\"obs\":[{}],\"eq\":[{}]", res.join(","), obs.join(","), eq.join(","))
    });
    let (fate, rest) = match r {
        Ok(s) => ("", s),
        Err(p) => ("panic", format!("\"res\":[],\"obs\":[],\"eq\":[],\"why\":{}", jstr(&p))),
    };
    format!("{{\"id\":{},\"kind\":\"members\",\"k\":\"{}\",\"fate\":\"{}\",\"ops\":{},{}}}", id, k, fate, body, rest)
}

fn random_member(rng: &mut Rng, oneofs: usize, fields: &[u64], wide: usize) -> Member {
    let num = |rng: &mut Rng| match rng.below(8) {
        0 => *rng.pick(&[0u64, 15, 16, 1 << 29, u32::MAX as u64, u64::MAX, 1 << 32, (1 << 32) + 1]),
        _ => rng.range(1, wide) as u64,
    };
    let names: Vec<String> = if wide == 8 { ["a", "b", "c", "d", "e", "f", "g", "A"].map(String::from).to_vec() } else { (0..wide).map(|i| format!("n{}", i)).collect() };
    if rng.chance(65) {
        Field {
            num: num(rng), name: rng.pick(&names).to_string(), ty: rng.pick(&SCALARS).to_string(), rf: String::new(),
            mult: rng.pick(&["Single", "Optional", "Repeated", "RepeatedPacked"]).to_string(),
            oo: if rng.chance(50) { 0 } else { rng.range(1, oneofs + 1) },
        }
    } else {
        let n = rng.below(4);
        Member::Oneof {
            name: rng.pick(&names).to_string(),
            nums: (0..n).map(|_| if !fields.is_empty() && rng.chance(85) { *rng.pick(fields) } else { num(rng) }).collect(),
        }
    }
}

pub fn record_members(cfg: &Cfg) {
    let mut out = Out::create(&cfg.out);
    if let Some(p) = &cfg.input {
        let mut i = 0;
        for_lines(p, |j| {
            let ops: Vec<Member> = j["ops"].as_array().unwrap().iter().map(member_from).collect();
            out.line(&members_history(cfg, i, j["k"].as_str().unwrap(), &ops, None));
            i += 1;
        });
        return;
    }
    let mut rng = Rng::new(cfg.seed.wrapping_mul(7919) ^ fnv(cfg.class.as_bytes()));
    for i in 0..cfg.n {
        let mut ops = vec![];
        let k = if rng.chance(80) { "message" } else { "enum" };
        let (mut oneofs, mut nums) = (0, vec![]);
        let big = cfg.extra.iter().any(|e| e == "--big=1");
        let n = if big { *rng.pick(&[100, 200, 255, 256, 300, 600]) + rng.below(9) } else { rng.range(2, 14) };
        let wide = if big { 3 * n } else { 8 };
        let lean = rng.chance(50);
        for _ in 0..n {
            if k == "enum" {
                let v = match rng.below(5) { 0 => *rng.pick(&[0i64, -1, i64::MIN, i64::MAX, i32::MIN as i64, 1 << 32]), _ => rng.range(0, wide - 3) as i64 };
                let name = if big { format!("v{}", rng.below(wide)) } else { rng.pick(&["a", "b", "c", "d", "e"]).to_string() };
                ops.push(Value { num: v, name });
                continue;
            }
            let mut m = random_member(&mut rng, oneofs, &nums, wide);
            if big && lean {
                // Many oneofs and fields without conflicts, some of them in the latest oneof.
                let i = ops.len();
                m = if i % 3 == 0 { Member::Oneof { name: format!("o{}", i), nums: vec![] } } else {
                    Field { num: i as u64, name: format!("f{}", i), ty: "Int32".into(), rf: String::new(), mult: "Single".into(), oo: if rng.chance(70) { oneofs } else { 0 } }
                };
            }
            match &m {
                Field { num, .. } => nums.push(*num),
                _ => oneofs += 1,
            }
            ops.push(m);
        }
        out.line(&members_history(cfg, i, k, &ops, if big { Some(&mut rng) } else { None }));
    }
}

// ---------------------------------------------------------------------------
// Contexts
// ---------------------------------------------------------------------------

/// A context under construction and every reference it handed out, by the name of what it denotes.
pub struct World {
    pub ctx: Context,
    pub pkgs: Vec<(String, PackageRef)>,
    pub held: Vec<(String, TypeRef)>,
}

pub fn type_ref(ctx: &Context, full: &str) -> Option<TypeRef> {
    ctx.get_type(full).map(|t| match t {
        TypeInfo::Message(m) => TypeRef::Message(m.self_ref),
        TypeInfo::Enum(e) => TypeRef::Enum(e.self_ref),
    })
}
fn full_of(ctx: &Context, r: TypeRef) -> (&'static str, String) {
    match r {
        TypeRef::Message(m) => ("message", ctx.resolve_message(m).full_name.clone()),
        TypeRef::Enum(e) => ("enum", ctx.resolve_enum(e).full_name.clone()),
    }
}

impl World {
    pub fn new() -> World {
        World { ctx: Context::new(), pkgs: vec![], held: vec![] }
    }
    /// A parsed context; `names` are the full names of its types with the package of top-level ones.
    pub fn parsed(texts: &[String], names: &[(String, Option<String>)]) -> Result<World, String> {
        let ctx = Context::parse(texts).map_err(|e| e.to_string())?;
        let mut w = World { ctx, pkgs: vec![], held: vec![] };
        for (n, pkg) in names {
            if let Some(r) = type_ref(&w.ctx, n) {
                w.held.push((n.clone(), r));
                if let (Some(p), TypeParent::Package(r)) = (pkg, w.ctx.get_type(n).unwrap().parent()) {
                    w.hold_pkg(p, r);
                }
            } else if let (Some(p), Some(s)) = (pkg, w.ctx.get_service(n)) {
                let r = s.parent;
                w.hold_pkg(p, r);
            }
        }
        Ok(w)
    }
    fn hold_pkg(&mut self, name: &str, r: PackageRef) {
        if !self.pkgs.iter().any(|(_, x)| *x == r) {
            self.pkgs.push((name.to_string(), r));
        }
    }
    fn names_of_pkg(&self, r: PackageRef) -> Vec<String> {
        self.pkgs.iter().filter(|(_, x)| *x == r).map(|(n, _)| n.clone()).collect()
    }
    pub fn can(&self, op: &Op) -> bool {
        match op {
            Op::Package(_) => true,
            Op::Type { in_pkg: true, up, .. } => self.pkgs.iter().any(|(n, _)| n == up),
            Op::Type { up, .. } => self.held.iter().any(|(n, r)| n == up && matches!(r, TypeRef::Message(_))),
        }
    }
    /// Applies an operation whose operands exist; scratch resolves references to items that do not exist yet.
    pub fn apply(&mut self, op: &Op, scratch: Option<&HashMap<String, TypeRef>>) -> (bool, String) {
        match op {
            Op::Package(n) => {
                // "-" stands for the empty name, which is not the same as no name.
                let p = Package::new(if n.is_empty() { None } else if n == "-" { Some(String::new()) } else { Some(n.clone()) });
                match self.ctx.insert_package(p) {
                    Ok(r) => {
                        let taken = self.names_of_pkg(r);
                        let _ = self.ctx.resolve_package(r);
                        self.pkgs.push((n.clone(), r));
                        (true, format!("{{\"ok\":true,\"full\":\"\",\"k\":\"\",\"names\":{}}}", serde_json::to_string(&taken).unwrap()))
                    }
                    Err(r) => {
                        let names = self.names_of_pkg(r);
                        let _ = self.ctx.resolve_package(r);
                        self.hold_pkg(n, r);
                        (false, format!("{{\"ok\":false,\"full\":\"\",\"k\":\"\",\"names\":{}}}", serde_json::to_string(&names).unwrap()))
                    }
                }
            }
            Op::Type { k, name, in_pkg, up, members } => {
                let parent = if *in_pkg {
                    TypeParent::Package(self.pkgs.iter().find(|(n, _)| n == up).expect("harness: package").1)
                } else {
                    match self.held.iter().find(|(n, _)| n == up).expect("harness: parent").1 {
                        TypeRef::Message(r) => TypeParent::Message(r),
                        _ => panic!("harness: parent is an enum"),
                    }
                };
                let want = if *in_pkg {
                    if up.is_empty() { name.clone() } else { format!("{}.{}", up, name) }
                } else {
                    format!("{}.{}", up, name)
                };
                let held = &self.held;
                let resolve = |ty: &str, rf: &str| {
                    let r = held.iter().find(|(n, _)| n == rf).map(|(_, r)| *r)
                        .or_else(|| scratch.and_then(|s| s.get(rf).copied()))
                        .unwrap_or_else(|| panic!("harness: reference to {}", rf));
                    match (ty, r) {
                        ("Message", TypeRef::Message(m)) => ValueType::Message(m),
                        ("Enum", TypeRef::Enum(e)) => ValueType::Enum(e),
                        _ => panic!("harness: kind of {}", rf),
                    }
                };
                let oo = oneof_refs(members.len());
                let r = if k == "message" {
                    let mut m = MessageInfo::new(name.clone(), parent);
                    for op in members {
                        apply_message(&mut m, op, &oo, &resolve).unwrap_or_else(|e| panic!("member refused: {:?}", e));
                    }
                    self.ctx.insert_message(m).map(TypeRef::Message)
                } else {
                    let mut m = EnumInfo::new(name.clone(), parent);
                    for op in members {
                        apply_enum(&mut m, op).unwrap_or_else(|e| panic!("member refused: {:?}", e));
                    }
                    self.ctx.insert_enum(m).map(TypeRef::Enum)
                };
                match r {
                    Ok(r) => {
                        let (k, full) = full_of(&self.ctx, r);
                        self.held.push((want, r));
                        (true, format!("{{\"ok\":true,\"full\":{},\"k\":\"{}\",\"names\":[]}}", jstr(&full), k))
                    }
                    Err(InsertError::TypeExists { original }) => {
                        let (k, full) = full_of(&self.ctx, original);
                        (false, format!("{{\"ok\":false,\"full\":{},\"k\":\"{}\",\"names\":[]}}", jstr(&full), k))
                    }
                    Err(InsertError::ServiceExists { original }) => {
                        let is = self.ctx.get_service(&want).map_or(false, |s| s.self_ref == original);
                        (false, format!("{{\"ok\":false,\"full\":{},\"k\":\"service\",\"names\":[]}}", jstr(if is { &want } else { "?" })))
                    }
                    #[allow(unreachable_patterns)]
                    Err(_) => (false, "{\"ok\":false,\"full\":\"?\",\"k\":\"?\",\"names\":[]}".into()),
                }
            }
        }
    }
    /// What the references handed out so far denote now.
    pub fn held_json(&self) -> String {
        let v: Vec<String> = self.held.iter().map(|(n, r)| {
            let (k, full) = full_of(&self.ctx, *r);
            format!("[{},{},\"{}\"]", jstr(n), jstr(&full), k)
        }).collect();
        format!("[{}]", v.join(","))
    }
}

/// Names of the items of a source, with the package of top-level ones.
pub fn names_of(files: &[Vec<Tk>]) -> Vec<(String, Option<String>)> {
    use Tk::*;
    let mut out = vec![];
    for f in files {
        let mut pkg = String::new();
        let mut i = 0;
        while i < f.len() {
            if f[i] == Id("package".into()) && (i == 0 || f[i - 1] == Sym(';') || f[i - 1] == Sym('}')) {
                let mut k = i + 1;
                while k < f.len() && f[k] != Sym(';') {
                    match &f[k] { Id(s) => pkg.push_str(s), _ => pkg.push('.') }
                    k += 1;
                }
                break;
            }
            i += 1;
        }
        let mut stack: Vec<Option<String>> = vec![];
        let mut open: Option<String> = None;
        for i in 0..f.len() {
            match &f[i] {
                Id(w) if ["message", "enum", "service"].contains(&w.as_str()) && i + 2 < f.len() && f[i + 2] == Sym('{')
                    && (f[i - 1] == Sym(';') || f[i - 1] == Sym('{') || f[i - 1] == Sym('}')) => {
                    if let Id(n) = &f[i + 1] {
                        let up = stack.iter().rev().flatten().next().cloned();
                        let base = up.clone().unwrap_or_else(|| pkg.clone());
                        let full = if base.is_empty() { n.clone() } else { format!("{}.{}", base, n) };
                        out.push((full.clone(), if up.is_none() { Some(pkg.clone()) } else { None }));
                        open = Some(full);
                    }
                }
                Sym('{') => stack.push(open.take()),
                Sym('}') => { stack.pop(); }
                _ => {}
            }
        }
    }
    out
}

pub fn texts_of(files: &[Vec<Tk>]) -> Vec<String> {
    let mut rng = Rng::new(1);
    source::render_all(files, &mut rng, source::Style::Plain)
}

fn world_of(files: &[Vec<Tk>]) -> Result<World, String> {
    if files.is_empty() { Ok(World::new()) } else { World::parsed(&texts_of(files), &names_of(files)) }
}

pub fn reg_probes(files: &[Vec<Tk>], ops: &[Op], rng: &mut Rng) -> Probes {
    let mut pr = if files.is_empty() { no_probes() } else { source::scan(files, rng) };
    let mut names: Vec<String> = names_of(files).into_iter().map(|x| x.0).collect();
    for o in ops {
        if let Op::Type { name, in_pkg, up, members, .. } = o {
            probes_of(members, &mut pr);
            names.push(if *in_pkg && up.is_empty() { name.clone() } else { format!("{}.{}", up, name) });
            names.push(name.clone());
        } else if let Op::Package(n) = o {
            names.push(n.clone());
        }
    }
    pr.names.extend(names);
    pr.names.sort();
    pr.names.dedup();
    pr.nums.sort();
    pr.nums.dedup();
    pr.nums.truncate(12);
    pr.idents.sort();
    pr.idents.dedup();
    pr.idents.truncate(12);
    pr
}

/// One history of one context.  Operations whose operands do not exist are left out by the caller.
fn registry_history(cfg: &Cfg, id: usize, files: &[Vec<Tk>], ops: &[Op], rng: &mut Rng) -> Option<String> {
    let body = ops_json(ops);
    cfg.status(&format!("{{\"files\":{},\"ops\":{}}}", source::files_json(files), body));
    let pr = reg_probes(files, ops, rng);
    let r = guarded(|| -> Option<String> {
        let mut w = world_of(files).ok()?;
        let mut t = world_of(files).ok()?;
        let mut steps = vec![];
        let (first, lists) = observe::context_and_lists(&w.ctx, &pr);
        for (i, op) in ops.iter().enumerate() {
            let (ok, res) = w.apply(op, None);
            let mut same = true;
            if ok {
                same = t.apply(op, None).0;
            }
            // A context with a NaN constant is not even equal to itself.
            #[allow(clippy::eq_op)]
            let eq = same && (w.ctx == t.ctx || w.ctx != w.ctx);
            // Everything is looked at after the last operation and after some before it.
            let (seen, lists) = if i + 1 == ops.len() || rng.chance(if ops.len() > 20 { 3 } else { 40 }) {
                observe::context_and_lists(&w.ctx, &pr)
            } else {
                ("[]".into(), "[]".into())
            };
            steps.push(format!("{{\"res\":{},\"eq\":{},\"probes\":{},\"lists\":{},\"held\":{}}}", res, eq, seen, lists, w.held_json()));
        }
        Some(format!("\"first\":{},\"lists\":{},\"steps\":[{}]", first, lists, steps.join(",")))
    });
    let (fate, rest) = match r {
        Ok(Some(s)) => ("", s),
        Ok(None) => ("unparsed", "\"first\":[],\"lists\":[],\"steps\":[]".into()),
        Err(p) => ("panic", format!("\"first\":[],\"lists\":[],\"steps\":[],\"why\":{}", jstr(&p))),
    };
    Some(format!(
        "{{\"id\":{},\"kind\":\"registry\",\"fate\":\"{}\",\"files\":{},\"ops\":{},{}}}",
        id, fate, source::files_json(files), body, rest
    ))
}

/// A random history; which operations have operands is tracked by name only.
pub fn random_ops(rng: &mut Rng, files: &[Vec<Tk>], n: usize) -> Vec<Op> {
    let base = names_of(files);
    let mut pkgs: Vec<String> = base.iter().filter_map(|x| x.1.clone()).collect();
    pkgs.sort();
    pkgs.dedup();
    let mut msgs: Vec<String> = vec![];
    let mut enums: Vec<String> = vec![];
    for f in files {
        for (k, list) in [("message", &mut msgs), ("enum", &mut enums)] {
            let only: Vec<String> = kinds_of(std::slice::from_ref(f), k);
            list.extend(only);
        }
    }
    // The full names in use: a type that is refused because of one is no parent for the later ones.
    let mut taken: Vec<String> = base.iter().map(|x| x.0.clone()).collect();
    let mut ops = vec![];
    let mut words: Vec<String> = ["A", "B", "C", "a", "b"].map(String::from).to_vec();
    if n > 20 { words.extend((0..n).map(|i| format!("T{}", i))) }
    for _ in 0..n {
        if pkgs.is_empty() || rng.chance(15) {
            let p = match rng.below(5) {
                0 => if rng.chance(70) { String::new() } else { "-".into() },
                1 => format!("{}.{}", rng.pick(&words), rng.pick(&words)),
                2 if !pkgs.is_empty() => rng.pick(&pkgs).clone(),
                _ => rng.pick(&words).to_string(),
            };
            // What types of a package with an empty name are called is nobody's business.
            if !pkgs.contains(&p) && p != "-" { pkgs.push(p.clone()) }
            ops.push(Op::Package(p));
            continue;
        }
        let in_pkg = msgs.is_empty() || rng.chance(45);
        let up = if in_pkg { rng.pick(&pkgs).clone() } else { rng.pick(&msgs).clone() };
        let k = if rng.chance(65) { "message" } else { "enum" };
        // The insertion functions take any name, even one with dots, which makes full names meet in other ways.
        let name = if rng.chance(12) { format!("{}.{}", rng.pick(&words), rng.pick(&words)) } else { rng.pick(&words).to_string() };
        let mut members: Vec<Member> = vec![];
        let cnt = if n > 20 && rng.chance(2) { rng.range(64, 300) } else { rng.below(4) };
        if k == "enum" {
            for i in 0..cnt {
                members.push(Value { num: i as i64 * if rng.chance(30) { -1 } else { 3 }, name: format!("v{}", i) });
            }
        } else {
            let oo = if cnt > 20 && rng.chance(50) { cnt } else { rng.below(3) };
            for i in 0..oo { members.push(Member::Oneof { name: format!("o{}", i), nums: vec![] }) }
            for i in 0..cnt {
                let (ty, rf) = match rng.below(4) {
                    0 if !msgs.is_empty() => ("Message".to_string(), rng.pick(&msgs).clone()),
                    1 if !enums.is_empty() => ("Enum".to_string(), rng.pick(&enums).clone()),
                    2 => (rng.pick(&["String", "Bytes"]).to_string(), String::new()),
                    _ => (rng.pick(&SCALARS).to_string(), String::new()),
                };
                members.push(Field {
                    num: (i * 7 + 1) as u64, name: format!("f{}", i), ty, rf,
                    mult: rng.pick(&["Single", "Optional", "Repeated"]).to_string(), oo: if rng.chance(60) { 0 } else { rng.below(oo + 1) },
                });
            }
        }
        let full = if in_pkg && up.is_empty() { name.clone() } else { format!("{}.{}", up, name) };
        if !taken.contains(&full) {
            taken.push(full.clone());
            if k == "message" { msgs.push(full) } else { enums.push(full) }
        }
        ops.push(Op::Type { k: k.into(), name, in_pkg, up, members });
    }
    ops
}
fn kinds_of(files: &[Vec<Tk>], kind: &str) -> Vec<String> {
    // A source of the general generator declares every full name once unless it is inconsistent.
    use Tk::*;
    let mut all = names_of(files);
    let mut kinds = vec![];
    for f in files {
        for i in 1..f.len() {
            if let Id(w) = &f[i] {
                if ["message", "enum", "service"].contains(&w.as_str()) && i + 2 < f.len() && f[i + 2] == Sym('{')
                    && (f[i - 1] == Sym(';') || f[i - 1] == Sym('{') || f[i - 1] == Sym('}')) {
                    if let Id(_) = &f[i + 1] { kinds.push(w.clone()) }
                }
            }
        }
    }
    assert!(kinds.len() == all.len(), "harness: names_of");
    let mut i = 0;
    all.retain(|_| { i += 1; kinds[i - 1] == kind });
    all.into_iter().map(|x| x.0).collect()
}

pub fn record_registry(cfg: &Cfg) {
    let mut out = Out::create(&cfg.out);
    let mut rng = Rng::new(cfg.seed.wrapping_mul(104729) ^ fnv(cfg.class.as_bytes()));
    if let Some(p) = &cfg.input {
        let mut i = 0;
        for_lines(p, |j| {
            let ops: Vec<Op> = j["ops"].as_array().unwrap().iter().map(op_from).collect();
            let files = source::files_from(&j["files"]);
            if let Some(l) = registry_history(cfg, i, &files, &ops, &mut rng) {
                out.line(&l);
            }
            i += 1;
        });
        return;
    }
    for i in 0..cfg.n {
        let files = if rng.chance(50) { vec![] } else { source::small_source(&mut rng) };
        let n = if cfg.extra.iter().any(|e| e == "--big=1") { *rng.pick(&[60, 100, 130, 260]) + rng.below(9) } else { rng.range(3, 14) };
        let ops = random_ops(&mut rng, &files, n);
        if let Some(l) = registry_history(cfg, i, &files, &ops, &mut rng) {
            out.line(&l);
        }
    }
}
