use serde_json::Value as J;
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Cfg {
    pub cmd: String,
    pub class: String,
    pub seed: u64,
    pub n: usize,
    pub out: String,
    pub input: Option<String>,
    pub status_file: Mutex<Option<File>>,
    pub summary_file: Option<String>,
    pub extra: Vec<String>,
}

static BEAT: AtomicU64 = AtomicU64::new(0);
/// How many calls of guarded are running.
static INSIDE: AtomicU64 = AtomicU64::new(0);

impl Cfg {
    /// What is being executed, for when the process does not survive it.
    pub fn status(&self, s: &str) {
        BEAT.fetch_add(1, Ordering::Relaxed);
        if let Some(f) = self.status_file.lock().unwrap().as_mut() {
            let _ = f.set_len(0);
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(s.as_bytes());
        }
    }
    pub fn summary(&self, s: &str) {
        if let Some(p) = &self.summary_file {
            std::fs::write(p, s).expect("harness: summary");
        }
    }
}

/// Ends the process with status 97 when a single item takes too long.
pub fn watchdog(seconds: u64) {
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut quiet = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = BEAT.load(Ordering::Relaxed);
            if now == last && now > 0 {
                quiet += 1;
                if quiet >= seconds && INSIDE.load(Ordering::Relaxed) == 0 {
                    eprintln!("WATCHDOG: the harness itself took longer than {} s", seconds);
                    std::process::exit(98);
                }
                if quiet >= seconds {
                    eprintln!("WATCHDOG: one item took longer than {} s", seconds);
                    std::process::exit(97);
                }
            } else {
                quiet = 0;
                last = now;
            }
        }
    });
}

pub struct Out(BufWriter<File>);
impl Out {
    pub fn create(p: &str) -> Out {
        Out(BufWriter::with_capacity(1 << 16, File::create(p).expect("harness: output file")))
    }
    pub fn line(&mut self, s: &str) {
        self.0.write_all(s.as_bytes()).expect("harness: write");
        self.0.write_all(b"\n").expect("harness: write");
    }
}

pub fn for_lines<F: FnMut(J)>(p: &str, mut f: F) {
    let r = BufReader::new(File::open(p).unwrap_or_else(|e| panic!("harness: {}: {}", p, e)));
    for l in r.lines() {
        let l = l.expect("harness: read");
        if !l.is_empty() {
            f(serde_json::from_str(&l).unwrap_or_else(|e| panic!("harness: bad json {}: {}", e, l)));
        }
    }
}
pub fn read_lines(p: &str) -> Vec<J> {
    let mut v = vec![];
    for_lines(p, |j| v.push(j));
    v
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
    static GUARDED: RefCell<usize> = RefCell::new(0);
}
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let text = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{} at {}", text, at));
        if GUARDED.with(|g| *g.borrow()) == 0 {
            old(info);
        }
    }));
}
/// Runs code under test; a panic is data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| *g.borrow_mut() += 1);
    INSIDE.fetch_add(1, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()));
    INSIDE.fetch_sub(1, Ordering::Relaxed);
    GUARDED.with(|g| *g.borrow_mut() -= 1);
    r
}
