//! Witness search: executes the real chanoma crate and compares it with an independent oracle, one per property.
//! A case is a plain value (`Case`), so that a failing one can be written out and replayed.
//!
//!   witness search PROP --tier T --seed N --scratch DIR --dict FILE --out FILE --seconds S
//!   witness replay FILE --scratch DIR
mod case;
mod config;
mod gen;
mod oracle;
mod props;
mod tables;
mod consts;

use case::Case;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static TICK: AtomicU64 = AtomicU64::new(0);
pub static PANIC_AT: Mutex<String> = Mutex::new(String::new());
/// the directory of the command line programs
pub static CLI: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
/// the directory of the Python package
pub static PYDIR: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
pub static CURRENT: Mutex<Option<Case>> = Mutex::new(None);

pub struct Ctx {
    pub prop: String,
    pub rng: gen::Rng,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub chars: Vec<char>,
    pub strs: Vec<String>,
    pub nums: Vec<usize>,
    pub evals: u64,
    pub nontrivial: u64,
    pub samples: Vec<serde_json::Value>,
    pub start: Instant,
    pub limit: Duration,
    pub out: PathBuf,
    pub stopped: bool,
    pub slice_end: Option<Instant>,
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

impl Ctx {
    /// Run one case; a failing one ends the search.
    pub fn run(&mut self, c: Case) {
        TICK.fetch_add(1, Ordering::Relaxed);
        if self.over() { return; }
        self.evals += 1;
        if self.evals & 0x3f == 0 || c.heavy() {
            *CURRENT.lock().unwrap() = Some(c.clone());
        }
        match exec(&c, &self.scratch) {
            Ok(changed) => {
                if changed { self.nontrivial += 1; }
                if changed && self.samples.len() < 5 && (self.nontrivial % 97 == 1) { let v = c.to_json(); if v.to_string().len() < 400 { self.samples.push(v); } }
            }
            Err(why) => {
                let c = shrink(c, &self.scratch);
                let why = exec(&c, &self.scratch).err().unwrap_or(why);
                self.report(Some((c, why)));
                std::process::exit(1);
            }
        }
    }
    pub fn over(&mut self) -> bool {
        if self.stopped { return true; }
        if self.evals & 0xff == 0 && self.start.elapsed() > self.limit { self.stopped = true; }
        if let Some(e) = self.slice_end { if self.evals & 0x1f == 0 && Instant::now() > e { return true; } }
        self.stopped
    }
    /// run `f` for at most this share of the time limit
    pub fn slice(&mut self, share: f64, f: impl FnOnce(&mut Ctx)) {
        self.slice_end = Some(Instant::now() + self.limit.mul_f64(share));
        f(self);
        self.slice_end = None;
    }
    pub fn sliced_out(&self) -> bool {
        self.stopped || self.slice_end.map_or(false, |e| Instant::now() > e) || self.start.elapsed() > self.limit
    }
    fn report(&self, w: Option<(Case, String)>) {
        let mut v = serde_json::json!({
            "property": self.prop, "evaluations": self.evals, "distinct_nontrivial": self.nontrivial,
            "samples": self.samples, "seconds": self.start.elapsed().as_secs_f64(), "time_limit_reached": self.stopped,
        });
        if let Some((c, why)) = w {
            v["witness"] = serde_json::json!({"case": c.to_json(), "why": why});
        }
        std::fs::write(&self.out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }
}

fn exec(c: &Case, scratch: &std::path::Path) -> Result<bool, String> {
    match catch_unwind(AssertUnwindSafe(|| props::run(c, scratch))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let at = PANIC_AT.lock().map(|g| g.clone()).unwrap_or_default();
            Err(format!("panicked at {}: {}", at, m))
        }
    }
}

/// make a failing case smaller while it still fails
fn shrink(mut c: Case, scratch: &std::path::Path) -> Case {
    // a panic of the harness itself (an ill-formed case) is no smaller version of anything else
    let own = |w: &String| w.starts_with("panicked at src/");
    let first_own = exec(&c, scratch).err().map_or(false, |w| own(&w));
    let t = Instant::now();
    loop {
        let mut better = None;
        for n in c.smaller() {
            if t.elapsed() > Duration::from_secs(20) { return c; }
            if exec(&n, scratch).err().map_or(false, |w| first_own || !own(&w)) { better = Some(n); break; }
        }
        match better { Some(n) => c = n, None => return c }
    }
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    log::set_logger(&LOGGER).ok();
    log::set_max_level(log::LevelFilter::Off);
    std::panic::set_hook(Box::new(|i| {
        if let (Some(l), Ok(mut g)) = (i.location(), PANIC_AT.lock()) { *g = format!("{}:{}", l.file(), l.line()); }
    }));
    let scratch = PathBuf::from(arg(&a, "--scratch").expect("--scratch"));
    std::fs::create_dir_all(&scratch).unwrap();
    if let Some(d) = arg(&a, "--cli") { CLI.set(PathBuf::from(d)).ok(); }
    if let Some(d) = arg(&a, "--py") { PYDIR.set(PathBuf::from(d)).ok(); }
    if a[1] == "replay" {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let c = Case::from_json(&v["witness"]["case"]);
        match exec(&c, &scratch) {
            Ok(_) => { println!("the property holds on this input"); }
            Err(w) => { println!("{}", w); std::process::exit(1); }
        }
        return;
    }
    let prop = a[2].clone();
    let seed: u64 = arg(&a, "--seed").map_or(1, |s| s.parse().unwrap_or(1));
    let thorough = arg(&a, "--tier").as_deref() == Some("thorough");
    let secs: f64 = arg(&a, "--seconds").map_or(20.0, |s| s.parse().unwrap());
    let mut ctx = Ctx {
        prop: prop.clone(), rng: gen::Rng::new(seed), thorough, scratch, chars: vec![], strs: vec![], nums: vec![],
        evals: 0, nontrivial: 0, samples: vec![], start: Instant::now(), limit: Duration::from_secs_f64(secs),
        out: PathBuf::from(arg(&a, "--out").expect("--out")), stopped: false, slice_end: None,
    };
    if let Some(d) = arg(&a, "--dict") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(d).unwrap()).unwrap();
        for c in v["chars"].as_array().unwrap() { ctx.chars.extend(c.as_str().unwrap().chars()); }
        for c in v["strs"].as_array().unwrap() { ctx.strs.push(c.as_str().unwrap().to_string()); }
        for n in v["nums"].as_array().unwrap() { ctx.nums.push(n.as_u64().unwrap() as usize); }
    }
    // a case that does not end is a witness too
    let (out, p2) = (ctx.out.clone(), prop.clone());
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(Ordering::Relaxed);
            if t != last.0 { last = (t, Instant::now()); }
            else if last.1.elapsed() > Duration::from_secs(100) && t > 0 {
                let c = CURRENT.lock().ok().and_then(|g| g.clone());
                let v = serde_json::json!({"property": p2, "evaluations": t, "distinct_nontrivial": 0, "samples": [],
                    "witness": {"case": c.map(|c| c.to_json()), "why": "no result within 100 s (this or one of the next 64 cases)"}});
                std::fs::write(&out, v.to_string()).ok();
                std::process::exit(1);
            }
        }
    });
    props::search(&mut ctx);
    ctx.report(None);
}
