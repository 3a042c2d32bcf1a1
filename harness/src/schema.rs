//! Message schemas shared with the specification, and contexts built from them.
use crate::ev::*;
use crate::rng::Rng;
use protofish::context::*;
use serde_json::Value as J;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Field {
    pub n: u64,
    pub ty: String,
    pub mult: String,
    /// 1-based message index, 0 when not a message.
    pub r: usize,
    pub en: String,
    /// `packed` option written in the source form: 0 none, 1 true, 2 false.
    pub opt: u8,
}
#[derive(Clone, Debug)]
pub struct Msg {
    pub name: String,
    pub fields: Vec<Field>,
}
#[derive(Clone, Debug)]
pub struct Schema {
    pub msgs: Vec<Msg>,
    pub parsed: bool,
    /// Seed of everything around the fields that no payload depends on: names, oneofs, options, packages, parents. 0: none.
    pub dress: u64,
}
/// The package of dressed schemas; their messages are known by their last name.
pub const DRESSED: &str = "dress.up";

/// What surrounds a field.
struct Trim {
    name: String,
    /// Index of its oneof within the message, from 1; 0 for none.
    oneof: usize,
    options: Vec<(&'static str, Constant, &'static str)>,
}

pub const SCALARS: [&str; 13] = [
    "Int32", "Int64", "UInt32", "UInt64", "SInt32", "SInt64", "Bool", "Fixed32", "SFixed32", "Float", "Fixed64",
    "SFixed64", "Double",
];
pub fn is_scalar(ty: &str) -> bool {
    SCALARS.contains(&ty)
}
pub fn wire_of(ty: &str) -> u8 {
    match ty {
        "Fixed64" | "SFixed64" | "Double" => 1,
        "String" | "Bytes" | "Message" => 2,
        "Fixed32" | "SFixed32" | "Float" => 5,
        _ => 0,
    }
}

impl Schema {
    pub fn json(&self) -> String {
        let mut s = String::from("{\"msgs\":[");
        for (i, m) in self.msgs.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&format!("{{\"name\":{},\"fields\":[", jstr(&m.name)));
            for (k, f) in m.fields.iter().enumerate() {
                if k > 0 {
                    s.push(',');
                }
                s.push_str(&format!(
                    "{{\"n\":{},\"ty\":\"{}\",\"mult\":\"{}\",\"ref\":{},\"en\":{},\"opt\":{}}}",
                    jb(&trim(f.n)), f.ty, f.mult, f.r, jstr(&f.en), f.opt
                ));
            }
            s.push_str("]}");
        }
        s.push_str(&format!("],\"parsed\":{},\"dress\":{}}}", self.parsed, self.dress));
        s
    }
    pub fn from_json(j: &J) -> Schema {
        Schema {
            parsed: j["parsed"].as_bool().unwrap_or(false),
            dress: j["dress"].as_u64().unwrap_or(0),
            msgs: j["msgs"].as_array().unwrap().iter().map(|m| Msg {
                name: m["name"].as_str().unwrap().to_string(),
                fields: m["fields"].as_array().unwrap().iter().map(|f| Field {
                    n: untrim(&unb(&f["n"])),
                    ty: f["ty"].as_str().unwrap().to_string(),
                    mult: f["mult"].as_str().unwrap().to_string(),
                    r: f["ref"].as_u64().unwrap() as usize,
                    en: f["en"].as_str().unwrap().to_string(),
                    opt: f["opt"].as_u64().unwrap_or(0) as u8,
                }).collect(),
            }).collect(),
        }
    }
    pub fn field(&self, m: usize, n: u64) -> Option<&Field> {
        self.msgs[m - 1].fields.iter().find(|f| f.n == n)
    }
    pub fn enums(&self) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for m in &self.msgs {
            for f in &m.fields {
                if !f.en.is_empty() && !out.contains(&f.en) {
                    out.push(f.en.clone());
                }
            }
        }
        out.sort();
        out
    }
    fn trims(&self, m: usize) -> Vec<Trim> {
        let plain = |i: usize| Trim { name: format!("f{}", i), oneof: 0, options: vec![] };
        let fields = &self.msgs[m].fields;
        if self.dress == 0 {
            return (0..fields.len()).map(plain).collect();
        }
        let mut rng = Rng::new(self.dress.wrapping_mul(31).wrapping_add(m as u64));
        let oneofs = rng.below(3);
        (0..fields.len()).map(|i| {
            let mut t = plain(i);
            if oneofs > 0 && fields[i].mult == "Single" && rng.chance(65) {
                t.oneof = rng.range(1, oneofs);
            }
            if rng.chance(40) {
                t.name = format!("{}{}", rng.pick(&["type", "message", "Value_", "M", "packed", "a_b_", "X", "repeated_", "int32_"]), i);
            }
            for (n, v, text) in [
                ("deprecated", Constant::Bool(true), "true"),
                ("json_name", Constant::String(bytes::Bytes::from_static(b"type")), "\"type\""),
                ("lazy", Constant::Bool(true), "true"),
                ("(a.b).c", Constant::Integer(-3), "-3"),
                ("jstype", Constant::Ident("JS_STRING".into()), "JS_STRING"),
                ("(z)", Constant::Float(0.5), "0.5"),
            ] {
                if rng.chance(12) {
                    t.options.push((n, v, text));
                }
            }
            t
        }).collect()
    }
    /// The message that each message is nested in, from 1; 0 for the package.
    fn parents(&self) -> Vec<usize> {
        let mut rng = Rng::new(self.dress ^ 0x5eed);
        (0..self.msgs.len()).map(|i| if self.dress != 0 && i > 0 && rng.chance(35) { rng.range(1, i) } else { 0 }).collect()
    }
    fn full(&self, m: usize, parents: &[usize]) -> String {
        match (parents[m], self.dress) {
            (0, 0) => self.msgs[m].name.clone(),
            (0, _) => format!("{}.{}", DRESSED, self.msgs[m].name),
            (p, _) => format!("{}.{}", self.full(p - 1, parents), self.msgs[m].name),
        }
    }
    fn enum_values(&self, e: &str) -> Vec<(String, i64)> {
        let mut v = vec![(format!("{}_A", e), 0), (format!("{}_B", e), 1)];
        if self.dress != 0 {
            for (k, n) in [-1i64, 2, 127, 128, i32::MAX as i64, i32::MIN as i64].into_iter().enumerate() {
                v.push((format!("{}_{}", e, k), n));
            }
        }
        v
    }
    /// The same declarations as proto source; multiplicities as protofish derives them.
    pub fn source(&self) -> String {
        let mut s = String::from("syntax = \"proto3\";\n");
        let dressed = self.dress != 0;
        if dressed {
            s.push_str(&format!("package {};\noption optimize_for = SPEED;\n", DRESSED));
        }
        for e in self.enums() {
            let vs: Vec<String> = self.enum_values(&e).iter().map(|(n, v)| format!("{} = {};", n, v)).collect();
            s.push_str(&format!("enum {} {{ {} }}\n", e, vs.join(" ")));
        }
        let parents = self.parents();
        for m in 0..self.msgs.len() {
            if parents[m] == 0 {
                self.message(m, &parents, &mut s);
            }
        }
        if dressed {
            s.push_str(&format!("service M0 {{ rpc M1 (.{0}) returns (stream .{0}); }}\n", self.full(0, &parents)));
        }
        s
    }
    fn message(&self, m: usize, parents: &[usize], s: &mut String) {
        let msg = &self.msgs[m];
        let trims = self.trims(m);
        s.push_str(&format!("message {} {{\n", msg.name));
        if self.dress != 0 {
            s.push_str("option deprecated = true; reserved 70001, 70003 to 70005; reserved \"gone\", \"lost\";\n");
        }
        for (c, _) in parents.iter().enumerate().filter(|(_, p)| **p == m + 1) {
            self.message(c, parents, s);
        }
        let line = |i: usize| {
            let f = &msg.fields[i];
            let ty = match f.ty.as_str() {
                "Message" if self.dress != 0 => format!(".{}", self.full(f.r - 1, parents)),
                "Message" => self.msgs[f.r - 1].name.clone(),
                "Enum" => f.en.clone(),
                t => t.to_lowercase(),
            };
            let label = match f.mult.as_str() {
                "Single" => "",
                "Optional" => "optional ",
                _ => "repeated ",
            };
            let mut opts: Vec<String> = match f.opt { 1 => vec!["packed = true".into()], 2 => vec!["packed = false".into()], _ => vec![] };
            opts.extend(trims[i].options.iter().map(|(n, _, t)| format!("{} = {}", n, t)));
            let opts = if opts.is_empty() { String::new() } else { format!(" [{}]", opts.join(", ")) };
            format!("  {}{} {} = {}{};\n", label, ty, trims[i].name, f.n, opts)
        };
        for i in 0..msg.fields.len() {
            let o = trims[i].oneof;
            if o == 0 {
                s.push_str(&line(i));
            } else if (0..i).all(|j| trims[j].oneof != o) {
                s.push_str(&format!("oneof one{} {{\n", o));
                for j in (i..msg.fields.len()).filter(|j| trims[*j].oneof == o) {
                    s.push_str(&line(j));
                }
                s.push_str("}\n");
            }
        }
        s.push_str("}\n");
    }
    pub fn build(&self) -> Built {
        if self.parsed {
            // A source that does not parse is the concern of the parser's properties.
            if let Ok(Some(b)) = crate::util::guarded(|| Context::parse(&[self.source()]).ok().map(|c| Built::index(c, self))) {
                return b;
            }
        }
        self.build_by_hand()
    }
    pub fn build_by_hand(&self) -> Built {
        // Message references are positions, so a scratch context with the same insertion order
        // provides references for recursive and forward references.
        let parents = self.parents();
        let start = || {
            let mut ctx = Context::new();
            let pkg = ctx.insert_package(Package::new((self.dress != 0).then(|| DRESSED.to_string()))).expect("package");
            (ctx, pkg)
        };
        let enums = self.enums();
        let add_enums = |ctx: &mut Context, pkg: PackageRef| -> Vec<EnumRef> {
            enums.iter().map(|e| {
                let mut info = EnumInfo::new(e.clone(), TypeParent::Package(pkg));
                for (n, v) in self.enum_values(e) {
                    info.add_field(EnumField::new(n, v)).expect("enum value");
                }
                ctx.insert_enum(info).expect("enum")
            }).collect()
        };
        let parent = |m: usize, pkg: PackageRef, done: &[MessageRef]| match parents[m] {
            0 => TypeParent::Package(pkg),
            p => TypeParent::Message(done[p - 1]),
        };
        let (mut scratch, pkg) = start();
        let er = add_enums(&mut scratch, pkg);
        let mut mr: Vec<MessageRef> = vec![];
        for (i, m) in self.msgs.iter().enumerate() {
            let info = MessageInfo::new(m.name.clone(), parent(i, pkg, &mr));
            mr.push(scratch.insert_message(info).expect("message"));
        }
        let (mut ctx, pkg) = start();
        let er2 = add_enums(&mut ctx, pkg);
        let mut mr2: Vec<MessageRef> = vec![];
        for (k, m) in self.msgs.iter().enumerate() {
            let mut info = MessageInfo::new(m.name.clone(), parent(k, pkg, &mr2));
            let trims = self.trims(k);
            let mut refs: HashMap<usize, OneofRef> = HashMap::new();
            for t in &trims {
                if t.oneof > 0 && !refs.contains_key(&t.oneof) {
                    refs.insert(t.oneof, info.add_oneof(Oneof::new(format!("one{}", t.oneof))).expect("oneof"));
                }
            }
            for (f, t) in m.fields.iter().zip(&trims) {
                let mut field = MessageField::new(t.name.clone(), f.n, value_type(f, &mr, &er, &enums));
                field.multiplicity = multiplicity(&f.mult);
                field.oneof = refs.get(&t.oneof).copied();
                field.options = t.options.iter().map(|(n, v, _)| ProtoOption { name: n.to_string(), value: v.clone() }).collect();
                info.add_field(field).expect("field");
            }
            mr2.push(ctx.insert_message(info).expect("message"));
        }
        Built {
            ctx,
            msgs: mr2,
            enums: enums.iter().cloned().zip(er2).collect(),
            names: self.msgs.iter().map(|m| m.name.clone()).collect(),
        }
    }
}

pub fn multiplicity(s: &str) -> Multiplicity {
    match s {
        "Single" => Multiplicity::Single,
        "Optional" => Multiplicity::Optional,
        "Repeated" => Multiplicity::Repeated,
        "RepeatedPacked" => Multiplicity::RepeatedPacked,
        _ => panic!("harness: multiplicity"),
    }
}

fn value_type(f: &Field, mr: &[MessageRef], er: &[EnumRef], enums: &[String]) -> ValueType {
    match f.ty.as_str() {
        "Message" => ValueType::Message(mr[f.r - 1]),
        "Enum" => ValueType::Enum(er[enums.iter().position(|e| *e == f.en).unwrap()]),
        t => scalar_type(t),
    }
}
pub fn scalar_type(t: &str) -> ValueType {
    match t {
        "Double" => ValueType::Double,
        "Float" => ValueType::Float,
        "Int32" => ValueType::Int32,
        "Int64" => ValueType::Int64,
        "UInt32" => ValueType::UInt32,
        "UInt64" => ValueType::UInt64,
        "SInt32" => ValueType::SInt32,
        "SInt64" => ValueType::SInt64,
        "Fixed32" => ValueType::Fixed32,
        "Fixed64" => ValueType::Fixed64,
        "SFixed32" => ValueType::SFixed32,
        "SFixed64" => ValueType::SFixed64,
        "Bool" => ValueType::Bool,
        "String" => ValueType::String,
        "Bytes" => ValueType::Bytes,
        other => panic!("harness: type {}", other),
    }
}

pub struct Built {
    pub ctx: Context,
    pub msgs: Vec<MessageRef>,
    pub enums: HashMap<String, EnumRef>,
    pub names: Vec<String>,
}
impl Built {
    fn index(ctx: Context, s: &Schema) -> Built {
        let parents = s.parents();
        let msgs = (0..s.msgs.len()).map(|m| ctx.get_message(&s.full(m, &parents)).expect("parsed message").self_ref).collect();
        let enums = s.enums().into_iter().map(|e| {
            let r = match ctx.get_type(&if s.dress != 0 { format!("{}.{}", DRESSED, e) } else { e.clone() }) {
                Some(TypeInfo::Enum(i)) => i.self_ref,
                _ => panic!("harness: parsed enum"),
            };
            (e, r)
        }).collect();
        Built { ctx, msgs, enums, names: s.msgs.iter().map(|m| m.name.clone()).collect() }
    }
    pub fn msg_ref(&self, name: &str) -> MessageRef {
        self.msgs[self.names.iter().position(|n| n == name).expect("harness: message name")]
    }
}

pub struct SchemaOpts {
    /// Percentages of messages / enums among field types.
    pub repeated: usize,
    pub odd_multiplicities: bool,
    pub parsed: usize,
    pub messages: usize,
}

pub fn gen_schema(rng: &mut Rng, o: &SchemaOpts) -> Schema {
    let nmsgs = rng.range(1, o.messages);
    let parsed = rng.chance(o.parsed);
    let mut msgs = vec![];
    for i in 0..nmsgs {
        let nf = rng.range(1, 9);
        let mut fields: Vec<Field> = vec![];
        // Numbered one after the other, seldom with a gap.
        let dense = rng.chance(30);
        let mut next = rng.below(3).min(1) as u64;
        for _ in 0..nf {
            next += if rng.chance(15) { 2 } else { 1 };
            let n = if dense { next - 1 } else { match rng.below(10) {
                0 => *rng.pick(&[15u64, 16, 31, 127, 128, 255, 256, 2047, 2048, 19000, 19999, 65535, 65536]),
                1 => *rng.pick(&[536870911u64, 1 << 29, (1 << 32) - 1, 1 << 32, (1 << 61) - 1, 1 << 60, 0]),
                _ => rng.range(1, 9) as u64,
            } };
            if fields.iter().any(|f| f.n == n) {
                continue;
            }
            let ty = match rng.below(100) {
                0..=17 => "Message",
                18..=25 => "Enum",
                26..=34 => "String",
                35..=41 => "Bytes",
                _ => *rng.pick(&SCALARS),
            };
            let mut opt = 0;
            let mult = if rng.chance(o.repeated) {
                if parsed {
                    opt = rng.below(3) as u8;
                    if is_scalar(ty) && opt != 2 { "RepeatedPacked" } else { "Repeated" }
                } else if is_scalar(ty) || o.odd_multiplicities {
                    *rng.pick(&["Repeated", "RepeatedPacked"])
                } else {
                    "Repeated"
                }
            } else {
                *rng.pick(&["Single", "Single", "Optional"])
            };
            fields.push(Field {
                n,
                ty: ty.into(),
                mult: mult.into(),
                r: if ty == "Message" { rng.range(1, nmsgs) } else { 0 },
                en: if ty == "Enum" { format!("E{}", rng.range(1, 2)) } else { String::new() },
                opt,
            });
        }
        msgs.push(Msg { name: format!("M{}", i + 1), fields });
    }
    Schema { msgs, parsed, dress: if rng.chance(60) { rng.next() >> 12 | 1 } else { 0 } }
}
