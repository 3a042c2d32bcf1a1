//! Texts of which nothing is known, for "parsing any text never crashes".
use crate::ev::jstr;
use crate::rng::Rng;
use crate::source::*;
use crate::util::*;
use protofish::context::Context;
use std::collections::HashSet;

fn attempt(cfg: &Cfg, texts: &[String]) -> (&'static str, String) {
    let total: usize = texts.iter().map(|t| t.len()).sum();
    cfg.status(&if total < 20000 {
        serde_json::to_string(texts).unwrap()
    } else {
        let s: String = texts[0].chars().take(200).collect();
        format!("{{\"bytes\":{},\"begins\":{}}}", total, jstr(&s))
    });
    match guarded(|| match Context::parse(texts) {
        Ok(c) => {
            let _ = c.get_type("A").is_some();
            "ok"
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            "err"
        }
    }) {
        Ok(s) => (s, String::new()),
        Err(m) => ("panic", m),
    }
}

struct Sink<'a> {
    cfg: &'a Cfg,
    out: Out,
    n: usize,
    ok: usize,
}
impl<'a> Sink<'a> {
    fn put(&mut self, texts: &[String]) {
        let (o, why) = attempt(self.cfg, texts);
        self.n += 1;
        self.ok += (o == "ok") as usize;
        let shown: Vec<String> = if o == "panic" || self.n % 500 == 1 {
            texts.iter().map(|t| t.chars().take(3000).collect()).collect()
        } else {
            vec![]
        };
        self.out.line(&format!(
            "{{\"id\":{},\"kind\":\"text\",\"out\":\"{}\",\"why\":{},\"texts\":{}}}",
            self.n, o, jstr(&why), serde_json::to_string(&shown).unwrap()
        ));
    }
}

const PIECES: [&str; 72] = [
    "syntax", "=", "\"proto3\"", ";", "message", "enum", "service", "rpc", "returns", "stream", "oneof", "map", "<", ">", "reserved", "to",
    "max", "option", "import", "weak", "public", "package", "repeated", "optional", "{", "}", "[", "]", "(", ")", ",", ".", "-", "+", "A", "x",
    "int32", "string", "1", "0", "08", "0x", "0xG", "99999999999999999999999", "1e400", "1e", ".5", "5.", "1e-400", "inf", "nan", "true", "false",
    "\"", "'", "\\", "\"\\x\"", "\"\\400\"", "\"\\xff\"", "'\\377'", "'\\x00'", "\"\\300a\"", "'é'", "import \"\\x80.proto\";", "option a = '\\xfe';", "reserved '\\xc3';", "/*", "*/", "//", "\n", "\u{feff}", "\u{0}",
];
const CHARS: &str = "{}[]()<>=;,.-+\"'\\/*#_ \t\r\n0189aAxXeEfntuU\u{0}\u{7f}\u{80}é☃\u{feff}\u{10ffff}😀";

fn mutate(t: &str, rng: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let pool: Vec<char> = CHARS.chars().collect();
    for _ in 0..rng.range(1, 4) {
        if c.is_empty() {
            break;
        }
        let i = rng.below(c.len());
        match rng.below(8) {
            0 => { c.remove(i); }
            1 => c.insert(i, *rng.pick(&pool)),
            2 => c[i] = *rng.pick(&pool),
            3 => { let j = rng.below(c.len()); c.swap(i, j); }
            4 => c.truncate(i),
            5 => { let j = (i + rng.below(20)).min(c.len()); c.drain(i..j); }
            6 => { let j = (i + rng.below(20)).min(c.len()); let d: Vec<char> = c[i..j].to_vec(); for (k, x) in d.into_iter().enumerate() { c.insert(i + k, x) } }
            _ => { let w: Vec<char> = rng.pick(&PIECES).chars().collect(); for (k, x) in w.into_iter().enumerate() { c.insert(i + k, x) } }
        }
    }
    c.into_iter().collect()
}

fn bombs() -> Vec<Vec<String>> {
    let p = "syntax=\"proto3\";";
    let mut v: Vec<Vec<String>> = vec![vec![], vec![String::new()], vec![String::new(); 3], vec![p.into(); 3]];
    let mut one = |s: String| v.push(vec![s]);
    for n in [10usize, 100, 400, 1000, 5000, 100_000] {
        let r = |a: &str| a.repeat(n);
        one(format!("{}{}{}", p, r("message A{"), r("}")));
        one(format!("{}{}", p, r("message A{")));
        one(format!("{}{}", p, r("}")));
        one(format!("{}{}", p, r(";")));
        one(format!("{}{}", p, r("/*")));
        one(format!("{}//{}", p, r("/*")));
        one(format!("{}{}", p, r("/**/")));
        one(format!("{}package {}a;", p, r("a.")));
        one(format!("{}message A{{{}a b=1;}}", p, r("a.")));
        one(format!("{}message A{{{}a b=1;}}", p, r(".")));
        one(format!("{}message {}{{}}", p, r("a")));
        one(format!("{}message A{{int32 a={};}}", p, r("9")));
        one(format!("{}message A{{int32 a=0x{};}}", p, r("f")));
        one(format!("{}message A{{int32 a=0{};}}", p, r("7")));
        one(format!("{}message A{{int32 a={}1;}}", p, r("0")));
        one(format!("{}enum A{{B=-{};}}", p, r("9")));
        one(format!("{}enum A{{B={}1;}}", p, r("-")));
        one(format!("{}option a={};", p, r("9")));
        one(format!("{}option a=-0x{};", p, r("F")));
        one(format!("{}option a=1e{};", p, r("9")));
        one(format!("{}option a=1e-{};", p, r("9")));
        one(format!("{}option a={}.5;", p, r("9")));
        one(format!("{}option a=.{};", p, r("9")));
        one(format!("{}option a=\"{}\";", p, r("\\x")));
        one(format!("{}option a=\"{}\";", p, r("\\377")));
        one(format!("{}option a=\"{};", p, r("☃")));
        one(format!("{}option a={};", p, r("{")));
        one(format!("{}option {}a{}=1;", p, r("("), r(")")));
        one(format!("{}option {}a=1;", p, r("a.")));
        one(format!("{}message A{{int32 a=1[{}a=1];}}", p, r("a=1,")));
        one(format!("{}message A{{reserved {}1;}}", p, r("1,")));
        one(format!("{}message A{{oneof o{{{}}}}}", p, r("int32 a=1;")));
        one(format!("{}message A{{{}}}", p, r("oneof o{}")));
        one(format!("{}enum A{{{}}}", p, r("a=1;")));
        one(format!("{}message A{{{}int32 a=1;}}", p, r("repeated ")));
        one(format!("{}{}", p, r("message A{}")));
        one(format!("{}{}", p, r("import\"a\";")));
        one(format!("{}{}", p, r("package a;")));
        one(format!("{}service A{{{}}}", p, r("rpc a(A)returns(A);")));
        one(format!("{}message A{{}}service S{{rpc a(A)returns(A){{{}", p, r("option a=1;")));
        one(r("syntax"));
        one(r(p));
        one(r("\u{feff}"));
        one(r("\n"));
        one(r("\u{0}"));
        one(format!("syntax=\"proto3\"{}", r(" ")));
        one(format!("{}map<{}", p, r("map<int32,")));
        one(format!("{}message A{{map<{}", p, r("int32,")));
        one(format!("{}message A{{option a={{{}}}}}", p, r("a:1 ")));
        one(format!("{}message A{{extensions {}", p, r("1 to max,")));
        one(format!("{}{}", p, r("extend A{int32 a=1;}")));
        one(format!("{}message A{{{}}}", p, r("group G=1{}")));
    }
    // All over- and underflowing numbers, in every place for numbers.
    let nums = [
        "0", "00", "-0", "-1", "- 1", "+1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551615", "18446744073709551616", "-18446744073709551616", "0xffffffffffffffff", "0x10000000000000000", "-0x8000000000000000",
        "-0x8000000000000001", "01777777777777777777777", "02000000000000000000000", "09", "0x", "0xg", "1_000", "1e5", "1.5", "1f", ".", "1.", "1.e",
        "1e+", "1e999999999999999999999", "1e-999999999999999999999", "inf", "-inf", "nan", "+nan", "-", "+", "--1", "0b1", "٣", "１",
        "340282366920938463463374607431768211456", "1e308", "1.7976931348623159e308", "5e-324", "2e-324", "infinity", "true", "\"1\"",
    ];
    for n in nums {
        for t in [
            format!("message A{{int32 a={};}}", n), format!("message A{{oneof o{{int32 a={};}}}}", n), format!("enum A{{B={};}}", n),
            format!("option a={};", n), format!("message A{{int32 a=1[b={}];}}", n), format!("enum A{{B=1[b={}];}}", n),
            format!("message A{{reserved {};}}", n), format!("message A{{reserved 1 to {};}}", n), format!("enum A{{reserved {};}}", n),
            format!("enum A{{reserved 1 to {};}}", n), format!("service A{{option a={};}}", n), format!("message A{{map<int32,A>a={};}}", n),
            format!("message A{{extensions {} to max;}}", n), format!("import {};", n), format!("package {};", n), format!("message {}{{}}", n),
            format!("message A{{{} a=1;}}", n), format!("syntax={};", n),
        ] {
            one(format!("{}{}", p, t));
        }
    }
    for esc in ["\\xff", "\\377", "a\\x80b", "\\xc3\\x28", "\\", "\\\"", "\\x", "\\xg", "\\x1", "\\x1g", "\\400", "\\777", "\\8", "\\9", "\\u0041", "\\U00000041", "\\u", "\\q", "\\\n", "\\0", "\\é", "\\☃", "\u{0}", "\n", "\\xé", "\\3é", "\\37☃"] {
        for q in ["\"", "'"] {
            for t in [format!("option a={q}{esc}{q};"), format!("option a={q}x{esc}"), format!("message A{{reserved {q}{esc}{q};}}"), format!("import {q}{esc}{q};"),
                      format!("message A{{int32 a=1[b={q}{esc}{q}];}}"), format!("syntax={q}{esc}{q};")] {
                one(format!("{}{}", p, t));
            }
        }
    }
    v
}

/// Every prefix of a text, every text with one token missing, doubled or replaced.
fn systematic(sink: &mut Sink, rng: &mut Rng, budget: usize) {
    let mut left = budget as i64;
    while left > 0 {
        let mut o = GENERAL.clone();
        o.files = 1;
        o.width = 2;
        o.depth = 1;
        o.fields = 3;
        o.options = 40;
        o.maps = 20;
        o.literals = 60;
        let f = Gen::new(rng, o).files().remove(0);
        let t = render(&f, rng, Style::Wild);
        let c: Vec<char> = t.chars().collect();
        let step = 1 + c.len() / 300;
        for i in (0..c.len()).step_by(step) {
            sink.put(&[c[..i].iter().collect()]);
            left -= 1;
        }
        for i in 0..f.len().min(200) {
            let mut g = f.clone();
            g.remove(i);
            sink.put(&[render(&g, rng, Style::Tight)]);
            let mut g = f.clone();
            g.insert(i, f[i].clone());
            sink.put(&[render(&g, rng, Style::Plain)]);
            let mut g = f.clone();
            let j = rng.below(f.len());
            g[i] = f[j].clone();
            sink.put(&[render(&g, rng, Style::Plain)]);
            left -= 3;
        }
    }
}

pub fn record(cfg: &Cfg) {
    let mut rng = Rng::new(cfg.seed.wrapping_mul(7919) ^ 77);
    let mut sink = Sink { cfg, out: Out::create(&cfg.out), n: 0, ok: 0 };
    if let Some(p) = &cfg.input {
        // Sources generated by the specification, prefixes and wrong continuations included.
        let styles = [Style::Plain, Style::Tight, Style::Wild];
        for_lines(p, |j| {
            let files = files_from(&j["files"]);
            let s = *rng.pick(&styles);
            let t = render_all(&files, &mut rng, s);
            sink.put(&t);
        });
    } else {
        for b in bombs() {
            sink.put(&b);
        }
        systematic(&mut sink, &mut rng, cfg.n / 3);
        for _ in 0..cfg.n {
            let files = rng.range(1, 2);
            let texts: Vec<String> = (0..files).map(|_| match rng.below(10) {
                0 | 1 => {
                    let head = if rng.chance(80) { "syntax = \"proto3\";" } else { "" };
                    let sep = if rng.chance(70) { " " } else { "" };
                    let n = rng.range(1, 40);
                    format!("{}{}", head, (0..n).map(|_| *rng.pick(&PIECES)).collect::<Vec<_>>().join(sep))
                }
                2 => {
                    let pool: Vec<char> = CHARS.chars().collect();
                    let n = rng.range(0, 60);
                    (0..n).map(|_| *rng.pick(&pool)).collect()
                }
                _ => {
                    let mut o = GENERAL.clone();
                    o.width = 2;
                    o.files = 1;
                    o.depth = 2;
                    o.maps = 10;
                    o.errors = 10;
                    o.literals = 60;
                    let f = Gen::new(&mut rng, o).files().remove(0);
                    let s = *rng.pick(&[Style::Plain, Style::Tight, Style::Wild, Style::Comments]);
                    let t = render(&f, &mut rng, s);
                    mutate(&t, &mut rng)
                }
            }).collect();
            sink.put(&texts);
        }
    }
    cfg.summary(&format!("{{\"texts\":{},\"accepted\":{}}}", sink.n, sink.ok));
}

// ---------------------------------------------------------------------------
// Texts that the specification reads character by character
// ---------------------------------------------------------------------------

const NEAR: &str = "{}[]()<>=;,.-+\"'\\/* \t\r\n019aAxeE_#$@:?\u{0}\u{7f}\u{a0}\u{85}\u{2028}\u{3000}é☃😀";

/// One edit of the kind a typing error is.
fn typo(t: &str, rng: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return String::new();
    }
    let pool: Vec<char> = NEAR.chars().collect();
    let spaces: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_whitespace()).collect();
    let i = rng.below(c.len());
    match rng.below(10) {
        // Where layout is, and where none is.
        0 | 1 if !spaces.is_empty() => { c.remove(*rng.pick(&spaces)); }
        2 if !spaces.is_empty() => { let k = *rng.pick(&spaces); c[k] = *rng.pick(&pool); }
        3 => { c.remove(i); }
        4 | 5 => c.insert(i, *rng.pick(&pool)),
        6 => c[i] = *rng.pick(&pool),
        7 => { let j = (i + 1).min(c.len() - 1); c.swap(i, j); }
        8 => { let j = (i + rng.range(1, 8)).min(c.len()); c.drain(i..j); }
        _ => { let w: Vec<char> = rng.pick(&PIECES).chars().collect(); for (k, x) in w.into_iter().enumerate() { c.insert(i + k, x) } }
    }
    c.into_iter().collect()
}

pub fn record_chars(cfg: &Cfg) {
    let mut rng = Rng::new(cfg.seed.wrapping_mul(86028121) ^ 24);
    let mut out = Out::create(&cfg.out);
    let mut n = 0;
    let mut put = |texts: &[String]| {
        cfg.status(&serde_json::to_string(texts).unwrap());
        let o = guarded(|| match Context::parse(texts) {
            Ok(_) => "{\"ok\":true}".to_string(),
            Err(e) => crate::observe::error(&e),
        }).unwrap_or_else(|p| format!("{{\"ok\":false,\"err\":\"panic\",\"name\":{},\"ctx\":\"\",\"actual\":\"\"}}", jstr(&p)));
        out.line(&format!("{{\"id\":{},\"kind\":\"chars\",\"files\":{},\"out\":{}}}", n, chars_json(texts), o));
        n += 1;
    };
    if let Some(p) = &cfg.input {
        for_lines(p, |j| {
            let texts: Option<Vec<String>> = j["texts"].as_array().unwrap().iter().map(|t| String::from_utf8(crate::ev::unb(t)).ok()).collect();
            if let Some(t) = texts { put(&t) }
        });
        return;
    }
    if cfg.class == "bombs" {
        let mut seen = HashSet::new();
        for b in bombs() {
            if b.iter().map(|t| t.len()).sum::<usize>() < 400 && !b.is_empty() && seen.insert(b.clone()) { put(&b) }
        }
        return;
    }
    let mut left = cfg.n as i64;
    while left > 0 {
        let mut o = GENERAL.clone();
        o.width = 2;
        o.files = if rng.chance(85) { 1 } else { 2 };
        o.depth = rng.below(3);
        o.fields = 3;
        o.maps = 5;
        o.services = 40;
        o.options = *rng.pick(&[10, 40]);
        o.errors = *rng.pick(&[0, 0, 0, 10]);
        o.literals = *rng.pick(&[5, 60]);
        let files = Gen::new(&mut rng, o).files();
        if files.iter().map(|f| f.len()).sum::<usize>() > 300 {
            continue;
        }
        let style = *rng.pick(&[Style::Plain, Style::Tight, Style::Wild, Style::Comments]);
        let texts = render_all(&files, &mut rng, style);
        // The text itself, some of its prefixes, and texts that differ in little.
        put(&texts);
        // What is before and after everything.
        for _ in 0..2 {
            let mut t = texts.clone();
            let k = rng.below(t.len());
            let edge = *rng.pick(&["\u{feff}", "\u{feff}\u{feff}", " \u{feff}", "\u{feff} ", "\u{fffe}", "\u{0}", "\u{1a}", "\u{4}", "\u{c}", "\u{2028}", "\u{a0}", "/", "\\", "#!", "--", "---", "\"", "EOF", "\r", "\r\r\n", ";;"]);
            if rng.chance(60) { t[k] = format!("{}{}", edge, t[k]) } else { t[k] = format!("{}{}", t[k], edge) }
            put(&t);
        }
        for _ in 0..3 {
            let mut t = texts.clone();
            let k = rng.below(t.len());
            let c: Vec<char> = t[k].chars().collect();
            t[k] = c[..rng.below(c.len() + 1)].iter().collect();
            put(&t);
        }
        for _ in 0..12 {
            let mut t = texts.clone();
            let k = rng.below(t.len());
            t[k] = typo(&t[k], &mut rng);
            if rng.chance(15) { t[k] = typo(&t[k], &mut rng) }
            put(&t);
        }
        left -= 18;
    }
}
