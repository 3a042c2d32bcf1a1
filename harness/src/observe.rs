//! What a context shows of itself through its public API, as records of `Observe.tla`.
use crate::ev::{jb, jstr, trim};
use protofish::context::*;

pub struct Probes {
    pub names: Vec<String>,
    pub nums: Vec<u64>,
    pub idents: Vec<String>,
    pub values: Vec<i64>,
    pub rpcs: Vec<String>,
}

fn opts(os: &[ProtoOption]) -> String {
    let mut s = String::from("[");
    for (i, o) in os.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let (k, b, id) = match &o.value {
            Constant::Ident(x) => ("Ident", vec![], x.clone()),
            Constant::Integer(x) => ("Int", x.to_le_bytes().to_vec(), String::new()),
            Constant::Float(x) => ("Float", x.to_bits().to_le_bytes().to_vec(), String::new()),
            Constant::String(x) => ("Str", x.to_vec(), String::new()),
            Constant::Bool(x) => ("Bool", vec![*x as u8], String::new()),
        };
        s.push_str(&format!("{{\"n\":{},\"k\":\"{}\",\"b\":{},\"s\":{}}}", jstr(&o.name), k, jb(&b), jstr(&id)));
    }
    s.push(']');
    s
}

pub fn type_name(ctx: &Context, t: &ValueType) -> (&'static str, String, bool) {
    let plain = |k| (k, String::new(), true);
    match t {
        ValueType::Double => plain("Double"),
        ValueType::Float => plain("Float"),
        ValueType::Int32 => plain("Int32"),
        ValueType::Int64 => plain("Int64"),
        ValueType::UInt32 => plain("UInt32"),
        ValueType::UInt64 => plain("UInt64"),
        ValueType::SInt32 => plain("SInt32"),
        ValueType::SInt64 => plain("SInt64"),
        ValueType::Fixed32 => plain("Fixed32"),
        ValueType::Fixed64 => plain("Fixed64"),
        ValueType::SFixed32 => plain("SFixed32"),
        ValueType::SFixed64 => plain("SFixed64"),
        ValueType::Bool => plain("Bool"),
        ValueType::String => plain("String"),
        ValueType::Bytes => plain("Bytes"),
        ValueType::Message(r) => {
            let m = ctx.resolve_message(*r);
            let ok = m.self_ref == *r && ctx.get_message(&m.full_name).map_or(false, |x| std::ptr::eq(x, m));
            ("Message", m.full_name.clone(), ok)
        }
        ValueType::Enum(r) => {
            let m = ctx.resolve_enum(*r);
            let ok = m.self_ref == *r && matches!(ctx.get_type(&m.full_name), Some(TypeInfo::Enum(x)) if std::ptr::eq(x, m));
            ("Enum", m.full_name.clone(), ok)
        }
    }
}

pub fn mult(m: &Multiplicity) -> &'static str {
    match m {
        Multiplicity::Single => "Single",
        Multiplicity::Repeated => "Repeated",
        Multiplicity::RepeatedPacked => "RepeatedPacked",
        Multiplicity::Optional => "Optional",
    }
}

struct Pks(Vec<PackageRef>);
impl Pks {
    fn id(&mut self, r: PackageRef) -> usize {
        if let Some(i) = self.0.iter().position(|x| *x == r) {
            return i + 1;
        }
        self.0.push(r);
        self.0.len()
    }
}

fn parent(ctx: &Context, p: TypeParent, me: TypeRef, pks: &mut Pks) -> (String, usize, bool) {
    match p {
        TypeParent::Package(r) => {
            let _ = ctx.resolve_package(r);
            (String::new(), pks.id(r), true)
        }
        TypeParent::Message(r) => {
            let m = ctx.resolve_message(r);
            let once = m.inner_types.iter().filter(|t| **t == me).count() == 1;
            (m.full_name.clone(), 0, once && m.self_ref == r)
        }
    }
}

/// The part of a message that does not need a context.
pub fn members(m: &MessageInfo, pr: &Probes, ty: &dyn Fn(&ValueType) -> (&'static str, String, bool)) -> String {
    let oo_name = |f: &MessageField| match f.oneof {
        None => String::new(),
        Some(r) => match m.get_oneof(r) {
            Some(o) if o.self_ref == r => o.name.clone(),
            _ => "?".to_string(),
        },
    };
    let mut s = String::from("\"fields\":[");
    for (i, f) in m.iter_fields().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let agree = m.get_field(f.number).map_or(false, |x| std::ptr::eq(x, f))
            && m.get_field_by_name(&f.name).map_or(false, |x| std::ptr::eq(x, f));
        let (t, r, refok) = ty(&f.field_type);
        s.push_str(&format!(
            "{{\"num\":{},\"name\":{},\"ty\":\"{}\",\"ref\":{},\"refok\":{},\"mult\":\"{}\",\"oo\":{},\"agree\":{},\"opts\":{}}}",
            jb(&trim(f.number)), jstr(&f.name), t, jstr(&r), refok, mult(&f.multiplicity), jstr(&oo_name(f)), agree, opts(&f.options)
        ));
    }
    s.push_str("],\"oneofs\":[");
    for (i, o) in m.oneofs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let agree = m.get_oneof(o.self_ref).map_or(false, |x| std::ptr::eq(x, o));
        let nums: Vec<String> = o.fields.iter().map(|n| jb(&trim(*n))).collect();
        s.push_str(&format!(
            "{{\"name\":{},\"agree\":{},\"nums\":[{}],\"opts\":{}}}",
            jstr(&o.name), agree, nums.join(","), opts(&o.options)
        ));
    }
    s.push_str("],\"bynum\":[");
    let v: Vec<String> = pr.nums.iter().map(|n| {
        format!("[{},{}]", jb(&trim(*n)), jstr(&m.get_field(*n).map(|f| f.name.clone()).unwrap_or_default()))
    }).collect();
    s.push_str(&v.join(","));
    s.push_str("],\"byname\":[");
    let v: Vec<String> = pr.idents.iter().map(|n| {
        let f = m.get_field_by_name(n);
        format!("[{},{},{}]", jstr(n), f.is_some(), jb(&f.map(|f| trim(f.number)).unwrap_or_default()))
    }).collect();
    s.push_str(&v.join(","));
    s.push(']');
    s
}

/// The looked-up values of an enum.
pub fn values(e: &EnumInfo, pr: &Probes) -> String {
    let v: Vec<String> = pr.values.iter().map(|n| {
        let f = e.get_field_by_value(*n);
        format!(
            "{{\"num\":{},\"found\":{},\"name\":{},\"agree\":{},\"opts\":{}}}",
            jb(&n.to_le_bytes()), f.is_some(), jstr(&f.map(|f| f.name.clone()).unwrap_or_default()),
            f.map_or(true, |f| f.value == *n), opts(f.map(|f| &f.options[..]).unwrap_or(&[]))
        )
    }).collect();
    format!("\"values\":[{}]", v.join(","))
}

fn arg(ctx: &Context, a: &RpcArg) -> String {
    let (_, r, ok) = type_name(ctx, &ValueType::Message(a.message));
    format!("{{\"stream\":{},\"ref\":{},\"refok\":{}}}", a.stream, jstr(&r), ok)
}

/// One record per probed name.
pub fn context(ctx: &Context, pr: &Probes) -> String {
    context_and_lists(ctx, pr).0
}

/// The probes, and what the packages met on the way list.
pub fn context_and_lists(ctx: &Context, pr: &Probes) -> (String, String) {
    let mut pks = Pks(vec![]);
    let mut refs: Vec<(bool, String, String)> = vec![];
    let mut out = String::from("[");
    for (i, q) in pr.names.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        let ty = match ctx.get_type(q) {
            None => {
                let stray = ctx.get_message(q).is_some();
                format!("{{\"t\":\"{}\"}}", if stray { "stray" } else { "none" })
            }
            Some(info) => {
                let (t, name, full, par, me) = match info {
                    TypeInfo::Message(m) => ("message", &m.name, &m.full_name, m.parent, TypeRef::Message(m.self_ref)),
                    TypeInfo::Enum(e) => ("enum", &e.name, &e.full_name, e.parent, TypeRef::Enum(e.self_ref)),
                };
                refs.push((true, format!("{:?}", me), full.clone()));
                let (up, pk, upok) = parent(ctx, par, me, &mut pks);
                let same = match info {
                    TypeInfo::Message(m) => {
                        std::ptr::eq(ctx.resolve_message(m.self_ref), m) && ctx.get_message(q).map_or(false, |x| std::ptr::eq(x, m))
                    }
                    TypeInfo::Enum(e) => std::ptr::eq(ctx.resolve_enum(e.self_ref), e) && ctx.get_message(q).is_none(),
                };
                let selfok = same && upok && info.name() == name && info.full_name() == full && info.parent() == par;
                let rest = match info {
                    TypeInfo::Message(m) => {
                        let inner: Vec<String> = m.inner_types.iter().map(|t| match t {
                            TypeRef::Message(r) => jstr(&ctx.resolve_message(*r).full_name),
                            TypeRef::Enum(r) => jstr(&ctx.resolve_enum(*r).full_name),
                        }).collect();
                        format!("\"inner\":[{}],{}", inner.join(","), members(m, pr, &|t| type_name(ctx, t)))
                    }
                    TypeInfo::Enum(e) => values(e, pr),
                };
                format!(
                    "{{\"t\":\"{}\",\"name\":{},\"full\":{},\"up\":{},\"pk\":{},\"selfok\":{},{}}}",
                    t, jstr(name), jstr(full), jstr(&up), pk, selfok, rest
                )
            }
        };
        let sv = match ctx.get_service(q) {
            None => "{\"t\":\"none\"}".to_string(),
            Some(s) => {
                refs.push((false, format!("{:?}", s.self_ref), s.full_name.clone()));
                let _ = ctx.resolve_package(s.parent);
                let rpcs: Vec<String> = s.rpcs.iter().map(|r| {
                    format!("{{\"name\":{},\"in\":{},\"out\":{},\"opts\":{}}}", jstr(&r.name), arg(ctx, &r.input), arg(ctx, &r.output), opts(&r.options))
                }).collect();
                let byname: Vec<String> = pr.rpcs.iter().map(|n| {
                    let k = s.rpc_by_name(n).map_or(0, |r| s.rpcs.iter().position(|x| std::ptr::eq(x, r)).map_or(9999, |i| i + 1));
                    format!("[{},{}]", jstr(n), k)
                }).collect();
                format!(
                    "{{\"t\":\"service\",\"name\":{},\"full\":{},\"pk\":{},\"opts\":{},\"rpcs\":[{}],\"byname\":[{}]}}",
                    jstr(&s.name), jstr(&s.full_name), pks.id(s.parent), opts(&s.options), rpcs.join(","), byname.join(",")
                )
            }
        };
        out.push_str(&format!("{{\"q\":{},\"ty\":{},\"sv\":{}}}", jstr(q), ty, sv));
    }
    out.push(']');
    let lists: Vec<String> = pks.0.iter().enumerate().map(|(i, r)| listed(i + 1, &format!("{:?}", ctx.resolve_package(*r)), &refs)).collect();
    (out, format!("[{}]", lists.join(",")))
}

/// What a package lists shows only in its Debug form.  A form that cannot be read counts as not seen.
fn listed(pk: usize, debug: &str, refs: &[(bool, String, String)]) -> String {
    let digits = |s: &str| s.chars().filter(|c| c.is_ascii_digit()).collect::<String>();
    let names = |types: bool| -> Option<Vec<String>> {
        let open = if types { "types: [" } else { "services: [" };
        let from = debug.find(open)? + open.len();
        let body = &debug[from..from + debug[from..].find(']')?];
        if body.is_empty() {
            return Some(vec![]);
        }
        body.split(", ").map(|x| {
            if digits(x).is_empty() {
                return None;
            }
            let plain = digits(x) == x;
            let it = refs.iter().find(|r| r.0 == types && (r.1 == x || ((plain || !types) && digits(&r.1) == digits(x))));
            Some(it.map_or("?".to_string(), |r| r.2.clone()))
        }).collect()
    };
    match (names(true), names(false)) {
        (Some(t), Some(s)) => {
            let js = |v: Vec<String>| v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",");
            format!("{{\"pk\":{},\"seen\":true,\"types\":[{}],\"services\":[{}]}}", pk, js(t), js(s))
        }
        _ => format!("{{\"pk\":{},\"seen\":false,\"types\":[],\"services\":[]}}", pk),
    }
}

/// The outcome of parsing the texts.
pub fn parse(texts: &[String], pr: &Probes) -> String {
    let r = crate::util::guarded(|| match Context::parse(texts) {
        Ok(ctx) => {
            let (probes, lists) = context_and_lists(&ctx, pr);
            format!("{{\"ok\":true,\"probes\":{},\"lists\":{}}}", probes, lists)
        }
        Err(e) => error(&e),
    });
    r.unwrap_or_else(|p| format!("{{\"ok\":false,\"err\":\"panic\",\"name\":{},\"ctx\":\"\",\"actual\":\"\"}}", jstr(&p)))
}

pub fn error(e: &ParseError) -> String {
    let _ = format!("{} {:?}", e, e);
    let (k, n, c, a) = match e {
        ParseError::SyntaxError { .. } => ("syntax", String::new(), String::new(), String::new()),
        ParseError::DuplicateType { name, .. } => ("dup", name.clone(), String::new(), String::new()),
        ParseError::TypeNotFound { name, context, .. } => ("notfound", name.clone(), context.clone(), String::new()),
        ParseError::InvalidTypeKind { type_name, expected, actual, .. } => (
            if *expected == ItemType::Message { "kind" } else { "kind-expecting-other" },
            type_name.clone(), String::new(), format!("{:?}", actual),
        ),
        _ => ("other", String::new(), String::new(), String::new()),
    };
    format!("{{\"ok\":false,\"err\":\"{}\",\"name\":{},\"ctx\":{},\"actual\":{}}}", k, jstr(&n), jstr(&c), jstr(&a))
}
