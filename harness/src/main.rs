mod ev;
mod gen;
mod history;
mod meaning;
mod observe;
mod registry;
mod source;
mod text;
mod rng;
mod schema;
mod util;
mod wire;

use std::sync::Mutex;
use util::Cfg;

fn main() {
    let mut cfg = Cfg {
        cmd: String::new(), class: String::new(), seed: 1, n: 100, out: "/dev/stdout".into(), input: None,
        status_file: Mutex::new(None), summary_file: None, extra: vec![],
    };
    let mut args = std::env::args().skip(1);
    cfg.cmd = args.next().expect("usage: pf CMD --class C --seed S --n N --in F --out F --status F --summary F");
    while let Some(a) = args.next() {
        let v = args.next().expect("value");
        match a.as_str() {
            "--class" => cfg.class = v,
            "--seed" => cfg.seed = v.parse().unwrap(),
            "--n" => cfg.n = v.parse().unwrap(),
            "--out" => cfg.out = v,
            "--in" => cfg.input = Some(v),
            "--status" => cfg.status_file = Mutex::new(Some(std::fs::File::create(v).expect("status"))),
            "--summary" => cfg.summary_file = Some(v),
            _ => cfg.extra.push(format!("{}={}", a, v)),
        }
    }
    util::install_hook();
    util::watchdog(60);
    // The default stack of a spawned thread, 2 MiB.
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || match cfg.cmd.as_str() {
        "rec" => wire::record(&cfg),
        "replay" => wire::replay(&cfg),
        "replay-values" => wire::replay_values(&cfg),
        "rec-src" => source::record(&cfg),
        "replay-src" => source::replay(&cfg),
        "rec-members" => registry::record_members(&cfg),
        "rec-registry" => registry::record_registry(&cfg),
        "rec-text" => text::record(&cfg),
        "rec-chars" => text::record_chars(&cfg),
        "rec-arrangements" => meaning::record_arrangements(&cfg),
        "rec-rebuilds" => meaning::record_rebuilds(&cfg),
        "rec-histories" => history::record_histories(&cfg),
        "rec-payloads" => meaning::record_payloads(&cfg),
        "sources" => meaning::sources(&cfg),
        "probe-map" => wire::probe_map(&cfg),
        "probe-f1" => wire::probe_f1(&cfg),
        c => panic!("harness: unknown command {}", c),
    }).unwrap();
    if h.join().is_err() {
        std::process::exit(98);
    }
}
