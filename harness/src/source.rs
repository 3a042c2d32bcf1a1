//! proto3 token sequences: generation, layout, damage, recording.
use crate::ev::*;
use crate::observe::{self, Probes};
use crate::rng::Rng;
use crate::util::*;
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Tk {
    Id(String),
    Sym(char),
    Int(String),
    Float(String),
    Str(char, Vec<u8>),
}
use Tk::*;

pub fn id(s: &str) -> Tk {
    Id(s.to_string())
}
pub fn int(n: u64) -> Tk {
    Int(n.to_string())
}

pub fn tok_json(t: &Tk) -> String {
    match t {
        Id(s) => format!("{{\"t\":\"id\",\"s\":{},\"c\":[]}}", jstr(s)),
        Sym(c) => format!("{{\"t\":\"sym\",\"s\":{},\"c\":[]}}", jstr(&c.to_string())),
        Int(s) => format!("{{\"t\":\"int\",\"s\":\"\",\"c\":{}}}", jb(s.as_bytes())),
        Float(s) => format!("{{\"t\":\"float\",\"s\":\"\",\"c\":{}}}", jb(s.as_bytes())),
        Str(q, b) => format!("{{\"t\":\"str\",\"s\":{},\"c\":{}}}", jstr(&q.to_string()), jb(b)),
    }
}
pub fn tok_from(j: &J) -> Tk {
    let s = j["s"].as_str().unwrap_or("").to_string();
    let c = unb(&j["c"]);
    let text = || String::from_utf8(c.clone()).expect("harness: literal");
    match j["t"].as_str().unwrap() {
        "id" => Id(s),
        "sym" => Sym(s.chars().next().unwrap()),
        "int" => Int(text()),
        "float" => Float(text()),
        "str" => Str(s.chars().next().unwrap(), c),
        t => panic!("harness: token {}", t),
    }
}
pub fn files_json(files: &[Vec<Tk>]) -> String {
    let f: Vec<String> = files.iter().map(|f| format!("[{}]", f.iter().map(tok_json).collect::<Vec<_>>().join(","))).collect();
    format!("[{}]", f.join(","))
}
pub fn files_from(j: &J) -> Vec<Vec<Tk>> {
    j.as_array().unwrap().iter().map(|f| f.as_array().unwrap().iter().map(tok_from).collect()).collect()
}

/// The characters of a token; string content that is not UTF-8 cannot be written.
pub fn text_of(t: &Tk) -> String {
    match t {
        Id(s) | Int(s) | Float(s) => s.clone(),
        Sym(c) => c.to_string(),
        Str(q, b) => format!("{}{}{}", q, String::from_utf8(b.clone()).expect("harness: string literal"), q),
    }
}

// ---------------------------------------------------------------------------
// Layout
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    /// One space or line end between any two tokens.
    Plain,
    /// No layout at all where two tokens need no separation.
    Tight,
    /// Whitespace and comments at random.
    Wild,
    /// A comment between any two tokens.
    Comments,
}

fn wordy(t: &Tk) -> bool {
    matches!(t, Id(_) | Int(_) | Float(_))
}

fn comment(rng: &mut Rng, line: bool) -> String {
    let body = *rng.pick(&["", " x", "*", "**", "/", "\"", "'", ";", "}", "{", " // y", "/*", " é☃", "\\", " message A {", "\t", "=", "/ *", "* /"]);
    if line {
        format!("//{}{}", body, rng.pick(&["\n", "\r\n", "\n\n", " \n"]))
    } else {
        let body = if body.ends_with('*') && rng.chance(50) { "***" } else { body };
        format!("/*{}{}*/", body, if rng.chance(30) { "\n//" } else { "" })
    }
}

fn gap(rng: &mut Rng, style: Style, must: bool) -> String {
    let space = |rng: &mut Rng| rng.pick(&[" ", "\n", "\t", "\r\n", "  ", "\r", "\n\n"]).to_string();
    match style {
        Style::Plain => if rng.chance(20) { "\n".into() } else { " ".into() },
        Style::Tight => if must { space(rng) } else { String::new() },
        Style::Comments => {
            let mut s = String::new();
            if rng.chance(40) { s.push_str(&space(rng)); }
            let line = rng.chance(40);
            s.push_str(&comment(rng, line));
            if rng.chance(40) { s.push_str(&space(rng)); }
            s
        }
        Style::Wild => {
            let mut s = String::new();
            for _ in 0..rng.below(4) {
                match rng.below(4) {
                    0 => { let line = rng.chance(50); s.push_str(&comment(rng, line)) }
                    _ => s.push_str(&space(rng)),
                }
            }
            if must && s.is_empty() { space(rng) } else { s }
        }
    }
}

/// The texts of files; files of the same tokens are mostly the same text.
pub fn render_all(files: &[Vec<Tk>], rng: &mut Rng, style: Style) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for (i, f) in files.iter().enumerate() {
        let t = match files[..i].iter().position(|g| g == f) {
            Some(j) if rng.chance(80) => out[j].clone(),
            _ => render(f, rng, style),
        };
        out.push(t);
    }
    out
}
pub fn render(toks: &[Tk], rng: &mut Rng, style: Style) -> String {
    let mut s = String::new();
    let bom = style != Style::Plain && rng.chance(20);
    if bom {
        s.push('\u{feff}');
    }
    if style != Style::Plain && style != Style::Tight && rng.chance(50) {
        s.push_str(&gap(rng, style, false));
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            // Words and numbers side by side, and what would become one number.
            let num = |t: &Tk| matches!(t, Int(_) | Float(_));
            let joins = |t: &Tk| matches!(t, Sym('.') | Sym('-') | Sym('+'));
            let must = wordy(&toks[i - 1]) && wordy(t) || num(&toks[i - 1]) && joins(t) || toks[i - 1] == Sym('.') && num(t);
            s.push_str(&gap(rng, style, must));
        }
        s.push_str(&text_of(t));
    }
    match rng.below(4) {
        0 => s.push('\n'),
        1 if style != Style::Plain => s.push_str("// end"),
        2 if style != Style::Plain => s.push_str(&gap(rng, style, false)),
        _ => {}
    }
    s
}

/// Empty statements at places where any block or file allows them.
pub fn add_empty(toks: &[Tk], rng: &mut Rng, percent: usize) -> Vec<Tk> {
    let mut out = vec![];
    for t in toks {
        out.push(t.clone());
        if matches!(t, Sym(';') | Sym('{') | Sym('}')) {
            while rng.chance(percent) {
                out.push(Sym(';'));
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------
// Probes: names to look up, found by scanning the tokens.
// ---------------------------------------------------------------------------

fn parse_int(s: &str) -> Option<u64> {
    if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
        u64::from_str_radix(h, 16).ok()
    } else if s.starts_with('0') {
        u64::from_str_radix(s, 8).ok()
    } else {
        s.parse().ok()
    }
}

pub fn scan(files: &[Vec<Tk>], rng: &mut Rng) -> Probes {
    let mut names: Vec<String> = vec![];
    let mut nums = BTreeSet::new();
    let mut idents = BTreeSet::new();
    let mut values = BTreeSet::new();
    let mut rpcs = BTreeSet::new();
    let mut all_ids = BTreeSet::new();
    for f in files {
        let mut pkg: Vec<String> = vec![];
        let mut depth = 0;
        for (i, t) in f.iter().enumerate() {
            match t {
                Sym('{') => depth += 1,
                Sym('}') => depth -= 1,
                Id(s) if s == "package" && depth == 0 && pkg.is_empty() && (i == 0 || matches!(f[i - 1], Sym(';') | Sym('}'))) => {
                    let mut k = i + 1;
                    while let Some(Id(p)) = f.get(k) {
                        pkg.push(p.clone());
                        if f.get(k + 1) != Some(&Sym('.')) {
                            break;
                        }
                        k += 2;
                    }
                }
                _ => {}
            }
        }
        let mut open: Vec<Option<String>> = vec![];
        let mut i = 0;
        while i < f.len() {
            if let Id(s) = &f[i] {
                all_ids.insert(s.clone());
                if s == "rpc" {
                    if let Some(Id(n)) = f.get(i + 1) {
                        rpcs.insert(n.clone());
                    }
                }
            }
            match (&f[i], f.get(i + 1), f.get(i + 2)) {
                (Id(k), Some(Id(n)), Some(Sym('{'))) => {
                    if k == "message" || k == "enum" || k == "service" {
                        let mut p: Vec<String> = pkg.clone();
                        p.extend(open.iter().flatten().cloned());
                        p.push(n.clone());
                        names.push(p.join("."));
                        open.push(Some(n.clone()));
                    } else {
                        open.push(None);
                    }
                    all_ids.insert(n.clone());
                    i += 3;
                    continue;
                }
                (Id(n), Some(Sym('=')), Some(Int(v))) => {
                    idents.insert(n.clone());
                    if let Some(x) = parse_int(v) {
                        nums.insert(x);
                        values.insert(x as i64);
                    }
                }
                (Id(n), Some(Sym('=')), Some(Sym('-'))) => {
                    idents.insert(n.clone());
                    if let Some(Int(v)) = f.get(i + 3) {
                        if let Some(x) = parse_int(v) {
                            values.insert((x as i64).wrapping_neg());
                        }
                    }
                }
                (Sym('{'), _, _) => open.push(None),
                (Sym('}'), _, _) => {
                    open.pop();
                }
                _ => {}
            }
            i += 1;
        }
    }
    let declared = names.clone();
    // Names that may or may not be declared.
    let pool: Vec<String> = all_ids.into_iter().collect();
    for _ in 0..6 {
        let mut p: Vec<String> = if declared.is_empty() { vec![] } else { rng.pick(&declared).split('.').map(String::from).collect() };
        match rng.below(7) {
            0 if !p.is_empty() => { p.remove(0); }
            1 if !p.is_empty() => { p.pop(); }
            2 if !pool.is_empty() => p.push(rng.pick(&pool).clone()),
            3 if !pool.is_empty() => p.insert(0, rng.pick(&pool).clone()),
            4 if p.len() > 1 => { let i = rng.below(p.len()); p.remove(i); }
            5 => p.insert(0, String::new()),
            _ if !p.is_empty() => { let i = rng.below(p.len()); p[i] = p[i].to_lowercase() + "x"; }
            _ => {}
        }
        names.push(p.join("."));
    }
    let mut seen = BTreeSet::new();
    names.retain(|n| seen.insert(n.clone()));
    let mut nums: Vec<u64> = nums.into_iter().collect();
    rng.shuffle(&mut nums);
    nums.truncate(6);
    nums.push(u64::MAX);
    let mut values: Vec<i64> = values.into_iter().collect();
    values.push(i64::MIN);
    values.push(-77);
    values.sort();
    values.dedup();
    let mut idents: Vec<String> = idents.into_iter().collect();
    rng.shuffle(&mut idents);
    idents.truncate(6);
    idents.push(String::new());
    let mut rpcs: Vec<String> = rpcs.into_iter().collect();
    rpcs.push("nope".into());
    Probes { names, nums, idents, values, rpcs }
}

// ---------------------------------------------------------------------------
// Generation
// ---------------------------------------------------------------------------

#[derive(Clone)]
pub struct Opts {
    pub files: usize,
    pub depth: usize,
    pub width: usize,
    pub names: usize,
    /// Percentages.
    pub options: usize,
    pub keywords: usize,
    pub services: usize,
    pub errors: usize,
    pub relative: usize,
    pub literals: usize,
    pub repeated: usize,
    pub fields: usize,
    pub maps: usize,
}
pub const GENERAL: Opts = Opts {
    files: 3, depth: 3, width: 3, names: 6, options: 25, keywords: 25, services: 30, errors: 0, relative: 70, literals: 20,
    repeated: 30, fields: 4, maps: 0,
};

const KEYWORDS: [&str; 24] = [
    "message", "enum", "oneof", "map", "reserved", "repeated", "optional", "option", "package", "import", "syntax", "service",
    "rpc", "returns", "stream", "to", "max", "weak", "public", "true", "false", "inf", "nan", "extend",
];
const BUILTINS: [&str; 15] = [
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64",
    "bool", "string", "bytes",
];
const NOT_TYPES: [&str; 12] = [
    "map", "group", "repeated", "optional", "extend", "extensions", "option", "enum", "message", "oneof", "reserved", "stream",
];

struct Node {
    kind: &'static str,
    name: String,
    kids: Vec<Node>,
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub o: Opts,
    known: BTreeMap<String, &'static str>,
    paths: Vec<(Vec<String>, &'static str)>,
    dense: bool,
}

/// One thing the next source has many of.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Many { Fields, Oneofs, Members, Values, Types, Inner, Depth, Rpcs, Services, Options, Statements, Ranges, Reserved, Files, Parts, Word, Text, Digits, Empty, Imports, RpcOptions }
use Many::*;
const MANY: [Many; 21] = [Fields, Oneofs, Members, Values, Types, Inner, Depth, Rpcs, Services, Options, Statements, Ranges, Reserved, Files, Parts, Word, Text, Digits, Empty, Imports, RpcOptions];
thread_local! {
    static MUCH: std::cell::Cell<Option<(Many, usize)>> = std::cell::Cell::new(None);
}
fn many(d: Many) -> Option<usize> {
    MUCH.with(|b| match b.get() {
        Some((k, n)) if k == d => { b.set(None); Some(n) }
        _ => None,
    })
}
fn asks(d: Many) -> bool {
    MUCH.with(|b| matches!(b.get(), Some((k, _)) if k == d))
}
/// True when the source did not take it.
pub fn clear_many() -> bool {
    MUCH.with(|b| b.take()).is_some()
}
/// A few more than usual, or around the sizes an implementation may have limits at.
pub fn set_many(rng: &mut Rng, k: usize, large: bool) -> Many {
    let d = MANY[k % MANY.len()];
    let n = if !large { rng.range(4, 12) } else {
        match d {
            Depth => *rng.pick(&[16, 31, 32, 33, 63, 64, 65, 90]),
            Files => rng.range(20, 70),
            Types | Inner => *rng.pick(&[32, 64, 128, 256, 257, 300]) + rng.below(2),
            Rpcs | Services | Parts => *rng.pick(&[16, 32, 64, 65, 100, 128]) + rng.below(2),
            Word | Text | Digits => *rng.pick(&[64, 127, 128, 255, 256, 257, 1000]) + rng.below(2),
            _ => *rng.pick(&[32, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300]) + rng.below(2),
        }
    };
    MUCH.with(|b| b.set(Some((d, n))));
    d
}

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, o: Opts) -> Self {
        Gen { rng, o, known: BTreeMap::new(), paths: vec![], dense: false }
    }

    fn word(&mut self) -> String {
        if asks(Word) && self.rng.chance(10) {
            let n = many(Word).unwrap();
            return (0..n).map(|i| if i == 0 { 'L' } else { *self.rng.pick(&['a', 'b', '_', '7', 'Q']) }).collect();
        }
        let kw = self.o.keywords;
        if self.rng.chance(kw) {
            let base = if self.rng.chance(30) { *self.rng.pick(&BUILTINS) } else { *self.rng.pick(&KEYWORDS) };
            match self.rng.below(4) {
                0 => base.to_string(),
                1 => format!("{}{}", base, self.rng.pick(&["s", "_", "2", "X", "ly"])),
                2 => format!("{}{}", self.rng.pick(&["a", "my_", "M"]), base),
                _ => format!("{}{}", base[..1].to_uppercase(), &base[1..]),
            }
        } else {
            let pool = ["A", "B", "C", "D", "Foo", "Bar", "Item", "x1", "a_b", "Z9_", "b", "foo"];
            let n = self.o.names.min(pool.len());
            pool[self.rng.below(n)].to_string()
        }
    }

    fn tree(&mut self, depth: usize, top: bool, path: &[String]) -> Vec<Node> {
        let mut n = self.rng.range(if top { 1 } else { 0 }, self.o.width);
        let mut chain = None;
        let lots = if top { many(Types).or_else(|| many(Services).map(|n| n + 10000)) } else { many(Inner) };
        if top {
            if let Some(d) = many(Depth) {
                chain = Some(d);
                n = 1;
            }
        }
        if let Some(k) = lots {
            n = k % 10000;
            if n > 150 {
                // Many small ones.
                self.o.fields = 1;
                self.o.options /= 8;
            }
        }
        let mut out = vec![];
        for i in 0..n {
            let kind = if chain.is_some() || lots.is_none() && top && asks(Inner) && i == 0 { "message" }
                else if lots.map_or(false, |k| k > 10000) { "service" } else if top && self.rng.chance(self.o.services) { "service" } else if self.rng.chance(30) { "enum" } else { "message" };
            let mut name = self.word();
            if lots.is_some() { name = format!("{}{}", name, i) }
            let mut p = path.to_vec();
            p.push(name.clone());
            let full = p.join(".");
            if self.known.contains_key(&full) && !self.rng.chance(self.o.errors) {
                continue;
            }
            self.known.insert(full, kind);
            self.paths.push((p.clone(), kind));
            let kids = if let Some(d) = chain {
                self.chain(d, &p)
            } else if lots.is_some() && self.rng.chance(90) {
                vec![]
            } else if kind == "message" && depth > 0 {
                self.tree(depth - 1, false, &p)
            } else {
                vec![]
            };
            out.push(Node { kind, name, kids });
        }
        out
    }

    /// Messages within one another.
    fn chain(&mut self, depth: usize, path: &[String]) -> Vec<Node> {
        if depth == 0 {
            return vec![];
        }
        let name = self.word();
        let mut p = path.to_vec();
        p.push(name.clone());
        self.known.insert(p.join("."), "message");
        self.paths.push((p.clone(), "message"));
        let kids = self.chain(depth - 1, &p);
        vec![Node { kind: "message", name, kids }]
    }

    fn resolve(&self, path: &[String], scope: &[String]) -> Option<&'static str> {
        for k in (0..=scope.len()).rev() {
            let mut p: Vec<String> = scope[..k].to_vec();
            p.extend(path.iter().cloned());
            if let Some(x) = self.known.get(&p.join(".")) {
                return Some(x);
            }
        }
        None
    }

    fn dotted(path: &[String], lead: bool, out: &mut Vec<Tk>) {
        for (i, p) in path.iter().enumerate() {
            if i > 0 || lead {
                out.push(Sym('.'));
            }
            out.push(id(p));
        }
    }

    /// A reference that resolves to one of the wanted kinds, if there is such a type.
    fn reference(&mut self, scope: &[String], kinds: &[&str]) -> Option<Vec<Tk>> {
        let mut out = vec![];
        if self.rng.chance(self.o.errors) {
            // Anything: a dangling name, a service, an enum.
            let services: Vec<Vec<String>> = self.paths.iter().filter(|x| x.1 == "service").map(|x| x.0.clone()).collect();
            if self.rng.chance(50) && !self.paths.is_empty() {
                let p = if self.rng.chance(60) && !services.is_empty() { self.rng.pick(&services).clone() } else { self.rng.pick(&self.paths).0.clone() };
                // By its whole name, or by an end of it.
                let k = if self.rng.chance(50) { p.len() } else { self.rng.range(1, p.len()) };
                let p = p[p.len() - k..].to_vec();
                let lead = self.rng.chance(40) || NOT_TYPES.contains(&p[0].as_str());
                Self::dotted(&p, lead, &mut out);
            } else {
                let mut p = vec![self.word()];
                if self.rng.chance(40) { p.push(self.word()); }
                let lead = self.rng.chance(30) || NOT_TYPES.contains(&p[0].as_str());
                Self::dotted(&p, lead, &mut out);
            }
            return Some(out);
        }
        let cands: Vec<Vec<String>> = self.paths.iter().filter(|(_, k)| kinds.contains(k)).map(|(p, _)| p.clone()).collect();
        if cands.is_empty() {
            return None;
        }
        let p = self.rng.pick(&cands).clone();
        if self.rng.chance(self.o.relative) {
            let k = self.rng.range(1, p.len());
            let rel = p[p.len() - k..].to_vec();
            if !NOT_TYPES.contains(&rel[0].as_str()) && self.resolve(&rel, scope).map_or(false, |k| kinds.contains(&k)) {
                Self::dotted(&rel, false, &mut out);
                return Some(out);
            }
        }
        Self::dotted(&p, true, &mut out);
        // The absolute name may be a service of the same spelling only when names repeat.
        Some(out)
    }

    pub fn int_text(&mut self, v: u64) -> String {
        if asks(Digits) && self.rng.chance(30) {
            let n = many(Digits).unwrap();
            return if self.rng.chance(50) { format!("0x{}{:x}", "0".repeat(n), v) } else { format!("0{}{:o}", "0".repeat(n), v) };
        }
        if !self.rng.chance(self.o.literals) {
            return v.to_string();
        }
        match self.rng.below(4) {
            0 => format!("0x{:x}", v),
            1 => format!("0X{}{:X}", "0".repeat(self.rng.below(3)), v),
            2 => format!("0{}{:o}", "0".repeat(self.rng.below(3)), v),
            _ => v.to_string(),
        }
    }
    fn number(&mut self, used: &mut BTreeSet<u64>) -> Tk {
        if used.is_empty() {
            self.dense = self.rng.chance(30);
        }
        loop {
            let v = if self.dense && !used.contains(&u64::MAX) {
                // One after the other, seldom with a gap.
                let next = used.iter().next_back().map_or(self.rng.below(3).min(1) as u64, |k| k.saturating_add(1));
                if self.rng.chance(15) { next.saturating_add(1) } else { next }
            } else if self.rng.chance(self.o.literals) {
                match self.rng.below(4) {
                    0 => self.rng.next() >> self.rng.below(64),
                    1 => *self.rng.pick(&[0, 1 << 29, (1 << 29) - 1, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 7, 8, 9, 10]),
                    _ => self.rng.range(1, 300) as u64,
                }
            } else {
                self.rng.range(1, 30 + 2 * used.len()) as u64
            };
            if used.insert(v) {
                if self.o.errors > 0 && self.o.literals > 50 && self.rng.chance(2) {
                    return Int(self.rng.pick(&["18446744073709551616", "0x10000000000000000", "02000000000000000000000", "99999999999999999999999"]).to_string());
                }
                return Int(self.int_text(v));
            }
        }
    }
    fn enum_value(&mut self) -> (bool, Tk, i64) {
        let v = if self.rng.chance(self.o.literals) {
            match self.rng.below(4) {
                0 => *self.rng.pick(&[i64::MIN, i64::MAX, i32::MIN as i64, i32::MAX as i64, -1, 0, i64::MIN + 1]),
                1 => (self.rng.next() as i64) >> self.rng.below(64),
                _ => self.rng.range(0, 40) as i64 - 20,
            }
        } else {
            self.rng.range(0, 12) as i64 - 2
        };
        let neg = v < 0;
        let t = self.int_text(v.unsigned_abs());
        (neg, Int(t), v)
    }

    pub fn string(&mut self) -> Tk {
        let q = *self.rng.pick(&['"', '\'']);
        let mut b: Vec<u8> = vec![];
        let rich = self.rng.chance(self.o.literals + 10);
        let usual = self.rng.below(if rich { 9 } else { 4 });
        for _ in 0..many(Text).unwrap_or(usual) {
            if !rich {
                b.push(*self.rng.pick(b"abcXYZ09 _-."));
                continue;
            }
            match self.rng.below(9) {
                0 => b.extend(format!("\\x{:02x}", self.rng.below(256)).as_bytes()),
                1 => b.extend(format!("\\X{:02X}", self.rng.below(256)).as_bytes()),
                2 => b.extend(format!("\\{:03o}", self.rng.below(256)).as_bytes()),
                3 => {
                    b.extend(format!("\\{:o}", self.rng.below(64)).as_bytes());
                    b.extend(*self.rng.pick(&[&b"8"[..], b"a", b" ", b"9"]));
                }
                4 => {
                    b.push(b'\\');
                    b.push(*self.rng.pick(b"abfnrtv\\'\""));
                }
                5 => b.extend(self.rng.pick(&["é", "☃", "𝄞", "\u{feff}", "\u{a0}", "ÿ"]).as_bytes()),
                6 => b.push(if q == '"' { b'\'' } else { b'"' }),
                7 => b.push(*self.rng.pick(b"\t\r /*;{}=,.x0\x01\x7f")),
                _ => b.extend(self.rng.pick(&["//", "/* x", "*/", "a", "x41", "n", "0"]).as_bytes()),
            }
        }
        Str(q, b)
    }
    pub fn float_text(&mut self) -> String {
        if let Some(n) = many(Digits) {
            return format!("{}.{}", self.rng.below(10), (0..n).map(|_| *self.rng.pick(&['0', '5', '9'])).collect::<String>());
        }
        match self.rng.below(8) {
            0 => self.rng.pick(&["1.", ".5", "0.0", "1e5", "1.5E-3", "0.1", "1E+5", "00.5", "0e0", "1.e2", ".5e1", "123456789.125", "3e-0", "1e05", "0.3"]).to_string(),
            1 => self.rng.pick(&[
                "1e308", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1e309", "1e400", "4.9e-324", "5e-324",
                "2.4703282292062327e-324", "2.4703282292062328e-324", "2.47e-324", "1e-400", "2.2250738585072014e-308", "2.2250738585072011e-308",
                "2.225073858507201e-308", "9007199254740993.0", "9007199254740992.5", "9007199254740995.0", "1e23", "8.5e15", "1e22", "6.02e23",
            ]).to_string(),
            2 => format!("{}.{}", self.rng.next() >> self.rng.below(64), self.rng.next() >> self.rng.below(64)),
            3 => format!("{}.{:019}e{}", self.rng.below(10), self.rng.next() >> 1, self.rng.range(0, 30) as i64 - 15),
            4 => format!("{}e{}", self.rng.next(), self.rng.range(0, 620) as i64 - 330),
            5 => {
                // The shortest text of a random double, and one with more digits.
                let x = f64::from_bits(self.rng.next() & !(1 << 63));
                if x.is_finite() { format!("{:e}", x).replace("e", ".0e").replacen("..", ".", 1) } else { "1.5".into() }
            }
            6 => {
                let x = (self.rng.next() >> 11) as f64 * 2f64.powi(self.rng.range(0, 20) as i32 - 60);
                format!("{:.30}", x)
            }
            _ => format!("{}.{}", self.rng.below(1000), self.rng.below(1000)),
        }
    }

    fn constant(&mut self, out: &mut Vec<Tk>) {
        match self.rng.below(9) {
            0 => out.push(id(*self.rng.pick(&["true", "false"]))),
            1 | 2 => {
                let usual = self.rng.range(1, 3);
                let n = many(Parts).unwrap_or(usual);
                let p: Vec<String> = (0..n).map(|_| self.word()).collect();
                Self::dotted(&p, false, out);
            }
            3 => { let s = self.string(); out.push(s) }
            4 | 5 => {
                let (neg, t, v) = self.enum_value();
                if neg { out.push(Sym('-')) } else if v > 0 && self.rng.chance(20) { out.push(Sym('+')) }
                out.push(t);
            }
            6 => {
                if self.rng.chance(50) { out.push(Sym(*self.rng.pick(&['-', '+']))) }
                out.push(id(*self.rng.pick(&["inf", "nan"])));
            }
            _ => {
                if self.rng.chance(40) { out.push(Sym(*self.rng.pick(&['-', '+']))) }
                let mut t = self.float_text();
                // `1.5.0e3` is not a literal.
                if t.matches('.').count() > 1 { t = "2.5".into() }
                out.push(Float(t));
            }
        }
    }
    fn option_name(&mut self, out: &mut Vec<Tk>) {
        if self.rng.chance(30) {
            out.push(Sym('('));
            let usual = self.rng.range(1, 3);
            let n = many(Parts).unwrap_or(usual);
            let p: Vec<String> = (0..n).map(|_| self.word()).collect();
            Self::dotted(&p, false, out);
            out.push(Sym(')'));
        } else {
            let w = if self.rng.chance(20) { "deprecated".into() } else { self.word() };
            out.push(id(&w));
        }
        let usual = if self.rng.chance(25) { self.rng.range(1, 2) } else { 0 };
        for _ in 0..many(Parts).unwrap_or(usual) {
            out.push(Sym('.'));
            let w = self.word();
            out.push(id(&w));
        }
    }
    fn option(&mut self, out: &mut Vec<Tk>) {
        out.push(id("option"));
        self.option_name(out);
        out.push(Sym('='));
        self.constant(out);
        out.push(Sym(';'));
    }
    fn option_list(&mut self, packed: bool, out: &mut Vec<Tk>) {
        let mut items: Vec<Vec<Tk>> = vec![];
        let usual = if self.rng.chance(self.o.options) { self.rng.range(1, 3) } else { 0 };
        for _ in 0..many(Options).unwrap_or(usual) {
            let mut t = vec![];
            match self.rng.below(9) {
                0 => t.extend([Sym('('), id("packed"), Sym(')')]),
                1 => t.extend([id("packed"), Sym('.'), id("x")]),
                2 => t.push(id("unpacked")),
                3 => t.extend([Sym('('), id("x"), Sym(')'), Sym('.'), id("packed")]),
                4 => t.extend([id("x"), Sym('.'), id("packed")]),
                5 => t.extend([Sym('('), id("x"), Sym('.'), id("packed"), Sym(')')]),
                _ => self.option_name(&mut t),
            }
            if t == [id("packed")] { t = vec![id("packed_")] }
            t.push(Sym('='));
            if self.rng.chance(30) { t.push(id(*self.rng.pick(&["true", "false"]))) } else { self.constant(&mut t) }
            items.push(t);
        }
        if packed && self.rng.chance(60) {
            let v = match self.rng.below(8) {
                0 => vec![id("packed")],
                1 => vec![id("true"), Sym('.'), id("x")],
                2 => vec![int(1)],
                3 => vec![Str('"', b"true".to_vec())],
                4 | 5 => vec![id("true")],
                _ => vec![id("false")],
            };
            let mut t = vec![id("packed"), Sym('=')];
            t.extend(v);
            items.push(t);
        }
        if items.is_empty() {
            return;
        }
        self.rng.shuffle(&mut items);
        out.push(Sym('['));
        for (i, t) in items.into_iter().enumerate() {
            if i > 0 { out.push(Sym(',')) }
            out.extend(t);
        }
        out.push(Sym(']'));
    }

    fn field_type(&mut self, scope: &[String], out: &mut Vec<Tk>) -> bool {
        if self.rng.chance(45) {
            if let Some(r) = self.reference(scope, &["message", "enum"]) {
                out.extend(r);
                return false;
            }
        }
        out.push(id(*self.rng.pick(&BUILTINS)));
        true
    }
    fn member_name(&mut self, used: &mut BTreeSet<String>) -> Tk {
        loop {
            let mut n = self.word();
            if self.rng.chance(60) { n = format!("{}{}", n, used.len()) }
            if used.insert(n.clone()) {
                return Id(n);
            }
        }
    }
    fn reserved(&mut self, in_enum: bool, out: &mut Vec<Tk>) {
        out.push(id("reserved"));
        let n = self.rng.range(1, 3);
        if asks(Ranges) || !asks(Reserved) && self.rng.chance(50) {
            let n = many(Ranges).unwrap_or(n);
            for i in 0..n {
                if i > 0 { out.push(Sym(',')) }
                if in_enum && self.rng.chance(30) { out.push(Sym('-')) }
                let v = self.rng.range(100, 999) as u64;
                let t = self.int_text(v);
                out.push(Int(t));
                if self.rng.chance(40) {
                    out.push(id("to"));
                    if self.rng.chance(40) { out.push(id("max")) } else { let t = self.int_text(v + 5); out.push(Int(t)) }
                }
            }
        } else {
            let quoted = self.rng.chance(60);
            let n = many(Reserved).unwrap_or(n);
            for i in 0..n {
                if i > 0 { out.push(Sym(',')) }
                let w = self.word();
                out.push(if quoted { Str('"', w.into_bytes()) } else { Id(w) });
            }
        }
        out.push(Sym(';'));
    }

    fn message(&mut self, node: &Node, path: &[String], out: &mut Vec<Tk>) {
        out.extend([id("message"), id(&node.name), Sym('{')]);
        let mut parts: Vec<Vec<Tk>> = vec![];
        let mut nums = BTreeSet::new();
        let mut names = BTreeSet::new();
        let usual = self.rng.below(self.o.fields + 1);
        for _ in 0..many(Fields).unwrap_or(usual) {
            let mut t = vec![];
            let mut packed = false;
            if self.rng.chance(self.o.repeated) {
                t.push(id("repeated"));
                packed = true;
            } else if self.rng.chance(20) {
                t.push(id("optional"));
            }
            let builtin = self.field_type(path, &mut t);
            let n = self.member_name(&mut names);
            t.extend([n, Sym('=')]);
            let k = self.number(&mut nums);
            t.push(k);
            let b = builtin || self.rng.chance(30);
            self.option_list(packed && b, &mut t);
            t.push(Sym(';'));
            parts.push(t);
        }
        let mut oos = BTreeSet::new();
        let usual = if self.rng.chance(35) { self.rng.range(1, 2) } else { 0 };
        let usual = if asks(Members) { 1 } else { usual };
        for _ in 0..many(Oneofs).unwrap_or(usual) {
            let n = self.member_name(&mut oos);
            let mut t = vec![id("oneof"), n, Sym('{')];
            let opt_first = self.rng.chance(50);
            if opt_first && self.rng.chance(self.o.options) { self.option(&mut t) }
            let usual = self.rng.range(1, 3);
            for _ in 0..many(Members).unwrap_or(usual) {
                self.field_type(path, &mut t);
                let n = self.member_name(&mut names);
                t.extend([n, Sym('=')]);
                let k = self.number(&mut nums);
                t.push(k);
                self.option_list(false, &mut t);
                t.push(Sym(';'));
            }
            if !opt_first && self.rng.chance(self.o.options) { self.option(&mut t) }
            t.push(Sym('}'));
            parts.push(t);
        }
        for k in &node.kids {
            let mut t = vec![];
            let mut p = path.to_vec();
            p.push(k.name.clone());
            self.decl(k, &p, &mut t);
            parts.push(t);
        }
        let usual = self.rng.chance(self.o.options) as usize;
        for _ in 0..many(Statements).unwrap_or(usual) { let mut t = vec![]; self.option(&mut t); parts.push(t) }
        if asks(Ranges) || asks(Reserved) || self.rng.chance(20) { let mut t = vec![]; self.reserved(false, &mut t); parts.push(t) }
        let usual = self.rng.chance(10) as usize;
        for _ in 0..many(Empty).unwrap_or(usual) { parts.push(vec![Sym(';')]) }
        if self.rng.chance(self.o.maps) {
            let n = self.member_name(&mut names);
            let k = self.number(&mut nums);
            parts.push(vec![id("map"), Sym('<'), id("string"), Sym(','), id("int32"), Sym('>'), n, Sym('='), k, Sym(';')]);
        }
        self.rng.shuffle(&mut parts);
        for p in parts { out.extend(p) }
        out.push(Sym('}'));
    }
    fn enumeration(&mut self, node: &Node, out: &mut Vec<Tk>) {
        out.extend([id("enum"), id(&node.name), Sym('{')]);
        let mut parts: Vec<Vec<Tk>> = vec![];
        let mut names = BTreeSet::new();
        let usual = self.rng.range(0, 4);
        for _ in 0..many(Values).unwrap_or(usual) {
            let n = self.member_name(&mut names);
            let (neg, t, _) = self.enum_value();
            let mut p = vec![n, Sym('=')];
            if neg { p.push(Sym('-')) }
            p.push(t);
            self.option_list(false, &mut p);
            p.push(Sym(';'));
            parts.push(p);
        }
        let usual = self.rng.chance(self.o.options) as usize;
        for _ in 0..many(Statements).unwrap_or(usual) { let mut t = vec![]; self.option(&mut t); parts.push(t) }
        if asks(Ranges) || asks(Reserved) || self.rng.chance(15) { let mut t = vec![]; self.reserved(true, &mut t); parts.push(t) }
        self.rng.shuffle(&mut parts);
        for p in parts { out.extend(p) }
        out.push(Sym('}'));
    }
    fn service(&mut self, node: &Node, path: &[String], out: &mut Vec<Tk>) {
        out.extend([id("service"), id(&node.name), Sym('{')]);
        let mut names = BTreeSet::new();
        let usual = self.rng.range(0, 3);
        for _ in 0..many(Rpcs).unwrap_or(usual) {
            if self.rng.chance(self.o.options) { self.option(out) }
            let n = self.member_name(&mut names);
            let mut t = vec![id("rpc"), n];
            let mut ok = true;
            for k in 0..2 {
                t.push(Sym('('));
                if self.rng.chance(40) { t.push(id("stream")) }
                match self.reference(path, &["message"]) {
                    Some(r) => t.extend(r),
                    None => { ok = false; break }
                }
                t.push(Sym(')'));
                if k == 0 { t.push(id("returns")) }
            }
            if !ok { continue }
            if asks(RpcOptions) || self.rng.chance(40) {
                t.push(Sym('{'));
                let usual = self.rng.below(3);
                for _ in 0..many(RpcOptions).unwrap_or(usual) {
                    if self.rng.chance(70) { self.option(&mut t) } else { t.push(Sym(';')) }
                }
                t.push(Sym('}'));
            } else {
                t.push(Sym(';'));
            }
            out.extend(t);
        }
        out.push(Sym('}'));
    }
    fn decl(&mut self, node: &Node, path: &[String], out: &mut Vec<Tk>) {
        match node.kind {
            "message" => self.message(node, path, out),
            "enum" => self.enumeration(node, out),
            _ => self.service(node, path, out),
        }
    }

    pub fn files(&mut self) -> Vec<Vec<Tk>> {
        let usual = self.rng.range(1, self.o.files);
        let n = many(Files).unwrap_or(usual);
        let mut trees = vec![];
        for _ in 0..n {
            let pkg: Option<Vec<String>> = if self.rng.chance(65) {
                let usual = self.rng.range(1, 3);
                let k = many(Parts).unwrap_or(usual);
                // A package may have the full name of a message.
                let outer: Vec<Vec<String>> = self.paths.iter().filter(|p| p.1 == "message").map(|p| p.0.clone()).collect();
                if n <= 4 && !outer.is_empty() && self.rng.chance(15) {
                    Some(self.rng.pick(&outer).clone())
                } else {
                    // Package parts from the same small pool as type names, so that they shadow each other.
                    Some((0..k).map(|_| self.word()).collect())
                }
            } else {
                None
            };
            let base = pkg.clone().unwrap_or_default();
            let depth = self.o.depth;
            trees.push((pkg, self.tree(depth, true, &base)));
        }
        let mut out = vec![];
        for (pkg, tree) in trees {
            let q = *self.rng.pick(&['"', '\'']);
            let mut head = vec![id("syntax"), Sym('='), Str(q, b"proto3".to_vec()), Sym(';')];
            let mut parts: Vec<Vec<Tk>> = vec![];
            let base = pkg.clone().unwrap_or_default();
            if let Some(p) = pkg {
                let mut t = vec![id("package")];
                Self::dotted(&p, false, &mut t);
                t.push(Sym(';'));
                if self.rng.chance(80) { head.extend(t) } else { parts.push(t) }
            }
            let usual = self.rng.chance(20) as usize;
            for _ in 0..many(Imports).unwrap_or(usual) {
                let mut t = vec![id("import")];
                match self.rng.below(3) { 0 => t.push(id("weak")), 1 => t.push(id("public")), _ => {} }
                let plain = self.rng.chance(50);
                let s = if plain { Str('"', b"other.proto".to_vec()) } else { self.string() };
                t.push(s);
                t.push(Sym(';'));
                parts.push(t);
            }
            let usual = self.rng.chance(self.o.options) as usize;
            for _ in 0..many(Statements).unwrap_or(usual) { let mut t = vec![]; self.option(&mut t); parts.push(t) }
            let usual = self.rng.chance(10) as usize;
            for _ in 0..many(Empty).unwrap_or(usual) { parts.push(vec![Sym(';')]) }
            for n in &tree {
                let mut p = base.clone();
                p.push(n.name.clone());
                let mut t = vec![];
                self.decl(n, &p, &mut t);
                parts.push(t);
            }
            self.rng.shuffle(&mut parts);
            for p in parts { head.extend(p) }
            out.push(head);
        }
        // A file may be given twice.
        if n <= 4 && self.rng.chance(if self.o.errors > 0 { 8 } else { 1 }) {
            let k = self.rng.below(out.len());
            let twin = out[k].clone();
            out.push(twin);
        }
        out
    }
}

/// A consistent source for histories that begin with a parsed context.
pub fn small_source(rng: &mut Rng) -> Vec<Vec<Tk>> {
    let mut o = GENERAL.clone();
    o.files = 2;
    o.depth = 2;
    o.width = 2;
    o.options = 0;
    o.keywords = 0;
    o.fields = 2;
    o.literals = 0;
    Gen::new(rng, o).files()
}

/// Damage to a token sequence.
pub fn damage(files: &mut [Vec<Tk>], rng: &mut Rng) {
    let k = rng.below(files.len());
    let f = &mut files[k];
    for _ in 0..rng.range(1, 2) {
        if f.is_empty() { return }
        let i = rng.below(f.len());
        match rng.below(6) {
            0 => { f.remove(i); }
            1 => { let t = f[i].clone(); f.insert(i, t); }
            2 => { let j = rng.below(f.len()); f.swap(i, j); }
            3 => { let j = rng.below(f.len()); f[i] = f[j].clone(); }
            4 => f[i] = rng.pick(&[Sym(';'), Sym('{'), Sym('}'), Sym('='), Sym('.'), Sym('-'), Sym('<'), Sym('#'), id("message"), id("stream"), Int("08".into()),
                Int("0x".into()), Int("99999999999999999999".into()), Float("1e".into()), Str('"', b"\\q".to_vec()), Str('"', b"\\400".to_vec()), Str('"', b"\\xZ".to_vec())]).clone(),
            _ => { let j = rng.below(f.len()); let (a, b) = (i.min(j), i.max(j)); if b - a < 12 { f.drain(a..b); } else { f.truncate(a + 1) } }
        }
    }
}

// ---------------------------------------------------------------------------
// Recording
// ---------------------------------------------------------------------------

pub fn chars_json(texts: &[String]) -> String {
    let f: Vec<String> = texts.iter().map(|t| jb(t.as_bytes())).collect();
    format!("[{}]", f.join(","))
}

/// Parses several layouts of the same tokens; the distinct outcomes and one text for each.
pub fn outcomes(cfg: &Cfg, files: &[Vec<Tk>], pr: &Probes, rng: &mut Rng, styles: &[Style]) -> (Vec<String>, Vec<Vec<String>>) {
    let mut outs: Vec<String> = vec![];
    let mut texts = vec![];
    for s in styles {
        let t = render_all(files, rng, *s);
        cfg.status(&serde_json::to_string(&t).unwrap());
        let o = observe::parse(&t, pr);
        if !outs.contains(&o) {
            outs.push(o);
            texts.push(t);
        }
    }
    (outs, texts)
}

pub fn parse_record(idn: usize, files: &[Vec<Tk>], outs: &[String], texts: &[Vec<String>], chars: bool) -> String {
    let bytes: Vec<String> = texts.iter().map(|t| chars_json(t)).collect();
    format!(
        "{{\"id\":{},\"kind\":\"parse\",\"files\":{},\"outs\":[{}],\"texts\":{}{}}}",
        idn, files_json(files), outs.join(","), serde_json::to_string(texts).unwrap(),
        if chars { format!(",\"bytes\":[{}]", bytes.join(",")) } else { String::new() }
    )
}

const ALL: [Style; 4] = [Style::Plain, Style::Tight, Style::Wild, Style::Comments];

pub fn record(cfg: &Cfg) {
    let mut out = Out::create(&cfg.out);
    let mut rng = Rng::new(cfg.seed.wrapping_mul(1000003) ^ fnv(cfg.class.as_bytes()));
    let mut tokens = 0usize;
    let first = cfg.seed as usize;
    for i in 0..cfg.n {
        let mut o = GENERAL.clone();
        let mut styles = vec![*rng.pick(&ALL)];
        match cfg.class.as_str() {
            "c11" => { o.options = 40 }
            "c12" => { o.names = *rng.pick(&[2, 3, 4]); o.keywords = 5; o.depth = 4; o.options = 3; o.relative = 95; o.fields = 5; o.literals = 0;
                       o.errors = *rng.pick(&[0, 0, 0, 5]); o.services = *rng.pick(&[15, 50]) }
            "c13" => { o.errors = *rng.pick(&[0, 3, 10, 30]); o.names = *rng.pick(&[2, 4]); o.keywords = 5; o.options = 5; o.width = 2; o.services = 50 }
            "c14" | "c24" => { o.errors = 10; o.literals = 60; o.width = 2; o.maps = 10 }
            "c15" => { o.keywords = 60; o.options = 30; styles = vec![Style::Plain, Style::Tight, Style::Wild, Style::Comments, Style::Wild] }
            "c16" => { o.names = 4; o.depth = 4; o.options = 5; o.keywords = 10 }
            "c18" => { o.fields = 8; o.depth = 1; o.literals = 60 }
            "c20" => { o.literals = 95; o.options = 90; o.depth = 1; o.width = 2; o.files = 1; o.keywords = 10; o.errors = *rng.pick(&[0, 0, 0, 1]) }
            "c21" => { o.repeated = 75; o.options = 50; o.depth = 1; o.fields = 7; o.files = 1; o.literals = 5 }
            c => panic!("harness: class {}", c),
        }
        let large = cfg.extra.iter().any(|e| e == "--big=1");
        let mut files;
        if large {
            o.files = 2;
            o.width = 2;
            let mut tries = 0;
            loop {
                // The next kind when one of them has no place in sources of this class.
                let _ = set_many(&mut rng, first + i + tries / 40, true);
                tries += 1;
                files = Gen::new(&mut rng, o.clone()).files();
                // Not every source has a place for it; nor is every one of them small enough.
                if !clear_many() && files.iter().map(|f| f.len()).sum::<usize>() < 12000 { break }
            }
            styles.truncate(2);
        } else {
            if rng.chance(15) {
                let k = rng.below(1000);
                let _ = set_many(&mut rng, k, false);
            }
            files = Gen::new(&mut rng, o).files();
            clear_many();
        }
        if cfg.class == "c14" || cfg.class == "c24" {
            damage(&mut files, &mut rng);
            styles = vec![Style::Plain];
        }
        if cfg.class == "c15" {
            let p = *rng.pick(&[0, 5, 30]);
            files = files.iter().map(|f| add_empty(f, &mut rng, p)).collect();
        }
        tokens += files.iter().map(|f| f.len()).sum::<usize>();
        let pr = scan(&files, &mut rng);
        let (outs, texts) = outcomes(cfg, &files, &pr, &mut rng, &styles);
        out.line(&parse_record(i, &files, &outs, &texts, cfg.class == "c15"));
    }
    cfg.summary(&format!("{{\"sources\":{},\"tokens\":{}}}", cfg.n, tokens));
}

/// Sources generated by the specification: {files}.
pub fn replay(cfg: &Cfg) {
    let mut out = Out::create(&cfg.out);
    let mut rng = Rng::new(cfg.seed);
    let mut i = 0;
    for_lines(cfg.input.as_ref().expect("harness: --in"), |j| {
        let files = files_from(&j["files"]);
        let pr = scan(&files, &mut rng);
        let mut styles = vec![*rng.pick(&ALL)];
        if cfg.class == "layouts" {
            styles = vec![Style::Plain, Style::Tight, Style::Wild, Style::Comments];
        }
        let (outs, texts) = outcomes(cfg, &files, &pr, &mut rng, &styles);
        out.line(&parse_record(i, &files, &outs, &texts, cfg.class == "layouts"));
        i += 1;
    });
}
