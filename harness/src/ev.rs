//! The abstraction of a decoded message: a flat list of events, the alphabet of `Wire.tla`.
//! Only the public API of protofish is used, so nothing here depends on its internals.
use bytes::Bytes;
use protofish::context::{Context, EnumRef, MessageRef};
use protofish::decode::*;
use serde_json::Value as J;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub t: char,
    pub n: Vec<u8>,
    pub k: String,
    pub w: u8,
    pub v: Vec<u8>,
    pub vs: Vec<Vec<u8>>,
    pub m: String,
}

pub fn trim(n: u64) -> Vec<u8> {
    let mut b = n.to_le_bytes().to_vec();
    while b.last() == Some(&0) {
        b.pop();
    }
    b
}
pub fn untrim(b: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    for (i, c) in b.iter().enumerate().take(8) {
        x[i] = *c;
    }
    u64::from_le_bytes(x)
}

pub fn jbytes(b: &[u8], out: &mut String) {
    out.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&x.to_string());
    }
    out.push(']');
}
pub fn jb(b: &[u8]) -> String {
    let mut s = String::new();
    jbytes(b, &mut s);
    s
}
pub fn jstr(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
pub fn unb(v: &J) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}

impl Ev {
    pub fn new(t: char, n: u64, k: &str, w: u8, v: Vec<u8>) -> Ev {
        Ev { t, n: trim(n), k: k.to_string(), w, v, vs: vec![], m: String::new() }
    }
    pub fn json(&self, out: &mut String) {
        out.push_str(&format!("{{\"t\":\"{}\",\"n\":", self.t));
        jbytes(&self.n, out);
        out.push_str(&format!(",\"k\":\"{}\",\"w\":{},\"v\":", self.k, self.w));
        jbytes(&self.v, out);
        out.push_str(",\"vs\":[");
        for (i, x) in self.vs.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            jbytes(x, out);
        }
        out.push_str(&format!("],\"m\":{}}}", jstr(&self.m)));
    }
    pub fn from_json(j: &J) -> Ev {
        Ev {
            t: j["t"].as_str().unwrap().chars().next().unwrap(),
            n: unb(&j["n"]),
            k: j["k"].as_str().unwrap().to_string(),
            w: j["w"].as_u64().unwrap() as u8,
            v: unb(&j["v"]),
            vs: j["vs"].as_array().map(|a| a.iter().map(unb).collect()).unwrap_or_default(),
            m: j["m"].as_str().unwrap().to_string(),
        }
    }
}
pub fn evs_json(evs: &[Ev]) -> String {
    let mut s = String::with_capacity(evs.len() * 64);
    s.push('[');
    for (i, e) in evs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        e.json(&mut s);
    }
    s.push(']');
    s
}
pub fn evs_from(j: &J) -> Vec<Ev> {
    j.as_array().unwrap().iter().map(Ev::from_json).collect()
}

/// Names of dressed schemas without their package and parents.
fn bare(full: &str) -> String {
    match full.strip_prefix(crate::schema::DRESSED) {
        Some(rest) => rest.rsplit('.').next().unwrap_or("").to_string(),
        None => full.to_string(),
    }
}
pub fn msg_name(ctx: &Context, r: MessageRef) -> String {
    catch_unwind(AssertUnwindSafe(|| bare(&ctx.resolve_message(r).full_name))).unwrap_or_else(|_| "?".into())
}
pub fn enum_name(ctx: &Context, r: EnumRef) -> String {
    catch_unwind(AssertUnwindSafe(|| bare(&ctx.resolve_enum(r).full_name))).unwrap_or_else(|_| "?".into())
}

macro_rules! le {
    ($v:expr) => {
        $v.to_le_bytes().to_vec()
    };
}

pub fn flatten(msg: &MessageValue, ctx: &Context) -> Vec<Ev> {
    let mut out = vec![];
    flat(msg, ctx, &mut out);
    out
}

fn flat(msg: &MessageValue, ctx: &Context, out: &mut Vec<Ev>) {
    for f in &msg.fields {
        let n = f.number;
        let e = |k: &str, w: u8, v: Vec<u8>| Ev::new('F', n, k, w, v);
        match &f.value {
            Value::Double(x) => out.push(e("Double", 1, le!(x.to_bits()))),
            Value::Float(x) => out.push(e("Float", 5, le!(x.to_bits()))),
            Value::Int32(x) => out.push(e("Int32", 0, le!(x))),
            Value::Int64(x) => out.push(e("Int64", 0, le!(x))),
            Value::UInt32(x) => out.push(e("UInt32", 0, le!(x))),
            Value::UInt64(x) => out.push(e("UInt64", 0, le!(x))),
            Value::SInt32(x) => out.push(e("SInt32", 0, le!(x))),
            Value::SInt64(x) => out.push(e("SInt64", 0, le!(x))),
            Value::Fixed32(x) => out.push(e("Fixed32", 5, le!(x))),
            Value::Fixed64(x) => out.push(e("Fixed64", 1, le!(x))),
            Value::SFixed32(x) => out.push(e("SFixed32", 5, le!(x))),
            Value::SFixed64(x) => out.push(e("SFixed64", 1, le!(x))),
            Value::Bool(x) => out.push(e("Bool", 0, vec![*x as u8])),
            Value::String(x) => out.push(e("String", 2, x.as_bytes().to_vec())),
            Value::Bytes(x) => out.push(e("Bytes", 2, x.to_vec())),
            Value::Enum(x) => {
                let mut ev = e("Enum", 0, le!(x.value));
                ev.m = enum_name(ctx, x.enum_ref);
                out.push(ev);
            }
            Value::Packed(p) => {
                let mut ev = e("", 2, vec![]);
                macro_rules! arr {
                    ($k:expr, $xs:expr, $f:expr) => {{
                        ev.k = $k.to_string();
                        ev.vs = $xs.iter().map($f).collect();
                    }};
                }
                match p {
                    PackedArray::Double(v) => arr!("PDouble", v, |x| le!(x.to_bits())),
                    PackedArray::Float(v) => arr!("PFloat", v, |x| le!(x.to_bits())),
                    PackedArray::Int32(v) => arr!("PInt32", v, |x| le!(x)),
                    PackedArray::Int64(v) => arr!("PInt64", v, |x| le!(x)),
                    PackedArray::UInt32(v) => arr!("PUInt32", v, |x| le!(x)),
                    PackedArray::UInt64(v) => arr!("PUInt64", v, |x| le!(x)),
                    PackedArray::SInt32(v) => arr!("PSInt32", v, |x| le!(x)),
                    PackedArray::SInt64(v) => arr!("PSInt64", v, |x| le!(x)),
                    PackedArray::Fixed32(v) => arr!("PFixed32", v, |x| le!(x)),
                    PackedArray::Fixed64(v) => arr!("PFixed64", v, |x| le!(x)),
                    PackedArray::SFixed32(v) => arr!("PSFixed32", v, |x| le!(x)),
                    PackedArray::SFixed64(v) => arr!("PSFixed64", v, |x| le!(x)),
                    PackedArray::Bool(v) => arr!("PBool", v, |x| vec![*x as u8]),
                }
                out.push(ev);
            }
            Value::Message(m) => {
                let mut ev = Ev::new('E', n, "Message", 2, vec![]);
                ev.m = msg_name(ctx, m.msg_ref);
                out.push(ev);
                flat(m, ctx, out);
            }
            Value::Incomplete(w, b) => out.push(e("Incomplete", *w, b.to_vec())),
            Value::Unknown(u) => match u {
                UnknownValue::Varint(x) => {
                    let v = if *x <= u64::MAX as u128 { le!((*x as u64)) } else { le!(x) };
                    out.push(e("UVarint", 0, v));
                }
                UnknownValue::Fixed64(x) => out.push(e("UFixed64", 1, le!(x))),
                UnknownValue::VariableLength(b) => out.push(e("UBytes", 2, b.to_vec())),
                UnknownValue::Fixed32(x) => out.push(e("UFixed32", 5, le!(x))),
                UnknownValue::Invalid(w, b) => out.push(e("UInvalid", *w, b.to_vec())),
            },
        }
    }
    let g = msg.garbage.as_ref();
    out.push(Ev::new('L', 0, "Leave", g.is_some() as u8, g.map(|b| b.to_vec()).unwrap_or_default()));
}

fn a4(v: &[u8]) -> [u8; 4] {
    [v[0], v[1], v[2], v[3]]
}
fn a8(v: &[u8]) -> [u8; 8] {
    [v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]]
}

/// Rebuilds the message value the events describe.
pub fn unflatten(evs: &[Ev], root: MessageRef, msg: &dyn Fn(&str) -> MessageRef, en: &dyn Fn(&str) -> EnumRef) -> MessageValue {
    let mut pos = 0;
    unflat(evs, &mut pos, root, msg, en)
}

fn unflat(evs: &[Ev], pos: &mut usize, root: MessageRef, msg: &dyn Fn(&str) -> MessageRef, en: &dyn Fn(&str) -> EnumRef) -> MessageValue {
    let mut fields = vec![];
    loop {
        let e = &evs[*pos];
        *pos += 1;
        if e.t == 'L' {
            let garbage = if e.w == 1 { Some(Bytes::from(e.v.clone())) } else { None };
            return MessageValue { msg_ref: root, fields, garbage };
        }
        let b = || Bytes::from(e.v.clone());
        macro_rules! arr {
            ($var:ident, $f:expr) => {
                Value::Packed(PackedArray::$var(e.vs.iter().map($f).collect()))
            };
        }
        let value = match e.k.as_str() {
            "Message" => Value::Message(Box::new(unflat(evs, pos, msg(&e.m), msg, en))),
            "Double" => Value::Double(f64::from_bits(u64::from_le_bytes(a8(&e.v)))),
            "Float" => Value::Float(f32::from_bits(u32::from_le_bytes(a4(&e.v)))),
            "Int32" => Value::Int32(i32::from_le_bytes(a4(&e.v))),
            "Int64" => Value::Int64(i64::from_le_bytes(a8(&e.v))),
            "UInt32" => Value::UInt32(u32::from_le_bytes(a4(&e.v))),
            "UInt64" => Value::UInt64(u64::from_le_bytes(a8(&e.v))),
            "SInt32" => Value::SInt32(i32::from_le_bytes(a4(&e.v))),
            "SInt64" => Value::SInt64(i64::from_le_bytes(a8(&e.v))),
            "Fixed32" => Value::Fixed32(u32::from_le_bytes(a4(&e.v))),
            "Fixed64" => Value::Fixed64(u64::from_le_bytes(a8(&e.v))),
            "SFixed32" => Value::SFixed32(i32::from_le_bytes(a4(&e.v))),
            "SFixed64" => Value::SFixed64(i64::from_le_bytes(a8(&e.v))),
            "Bool" => Value::Bool(e.v[0] != 0),
            "String" => Value::String(String::from_utf8(e.v.clone()).expect("spec string is UTF-8")),
            "Bytes" => Value::Bytes(b()),
            "Enum" => Value::Enum(EnumValue { enum_ref: en(&e.m), value: i64::from_le_bytes(a8(&e.v)) }),
            "PDouble" => arr!(Double, |x| f64::from_bits(u64::from_le_bytes(a8(x)))),
            "PFloat" => arr!(Float, |x| f32::from_bits(u32::from_le_bytes(a4(x)))),
            "PInt32" => arr!(Int32, |x| i32::from_le_bytes(a4(x))),
            "PInt64" => arr!(Int64, |x| i64::from_le_bytes(a8(x))),
            "PUInt32" => arr!(UInt32, |x| u32::from_le_bytes(a4(x))),
            "PUInt64" => arr!(UInt64, |x| u64::from_le_bytes(a8(x))),
            "PSInt32" => arr!(SInt32, |x| i32::from_le_bytes(a4(x))),
            "PSInt64" => arr!(SInt64, |x| i64::from_le_bytes(a8(x))),
            "PFixed32" => arr!(Fixed32, |x| u32::from_le_bytes(a4(x))),
            "PFixed64" => arr!(Fixed64, |x| u64::from_le_bytes(a8(x))),
            "PSFixed32" => arr!(SFixed32, |x| i32::from_le_bytes(a4(x))),
            "PSFixed64" => arr!(SFixed64, |x| i64::from_le_bytes(a8(x))),
            "PBool" => arr!(Bool, |x| x[0] != 0),
            "Incomplete" => Value::Incomplete(e.w, b()),
            "UVarint" => Value::Unknown(UnknownValue::Varint(u64::from_le_bytes(a8(&e.v)) as u128)),
            "UFixed64" => Value::Unknown(UnknownValue::Fixed64(u64::from_le_bytes(a8(&e.v)))),
            "UBytes" => Value::Unknown(UnknownValue::VariableLength(b())),
            "UFixed32" => Value::Unknown(UnknownValue::Fixed32(u32::from_le_bytes(a4(&e.v)))),
            "UInvalid" => Value::Unknown(UnknownValue::Invalid(e.w, b())),
            other => panic!("harness: unknown event kind {}", other),
        };
        fields.push(FieldValue { number: untrim(&e.n), value });
    }
}
