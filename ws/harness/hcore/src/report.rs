//! Verdicts, evidence, replay files and known findings, shared by every check.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Ctx {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub seconds: f64,
    pub verif: PathBuf,
}
pub struct Report {
    pub ctx: Ctx,
    start: Instant,
    inner: Mutex<Inner>,
    known: Vec<(String, String)>,
}
#[derive(Default)]
struct Inner {
    evaluations: u64,
    distinct: std::collections::HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
    known_hits: BTreeSet<String>,
}
/// The number of distinct cases below which a run says nothing.
fn floor(property: &str) -> u64 {
    match property {
        "P17" | "P18" | "P19" | "P27" => 100,
        "P23" => 150,
        "P26" | "P28" | "P29" => 300,
        "P01" | "P02" | "P03" | "P05" | "P06" | "P07" | "P08" | "P15" | "P22" => 500,
        "P24" => 5000,
        "P25" => 3000,
        _ => 1000,
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
impl Report {
    pub fn new(ctx: Ctx) -> Self {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(ctx.verif.join("known-findings.txt")) {
            for l in t.lines() {
                // KNOWN property=<id> key=<key> <what fails>
                if let Some(rest) = l.strip_prefix("known: property=") {
                    let mut it = rest.splitn(3, ' ');
                    let (p, k, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                    if p == ctx.property {
                        known.push((k.trim_start_matches("key=").to_string(), what.to_string()));
                    }
                }
            }
        }
        Report { ctx, start: Instant::now(), inner: Mutex::default(), known }
    }
    /// Until the time is used up and, on a slow machine, until enough was observed for a verdict.
    pub fn time_left(&self) -> bool {
        let t = self.start.elapsed().as_secs_f64();
        t < self.ctx.seconds || (t < self.ctx.seconds.max(150.0) && (self.inner.lock().unwrap().distinct.len() as u64) < floor(&self.ctx.property))
    }
    pub fn elapsed(&self) -> f64 { self.start.elapsed().as_secs_f64() }
    /// One execution judged by the oracle. `key` identifies the distinct case.
    pub fn eval(&self, key: u64) {
        let mut i = self.inner.lock().unwrap();
        i.evaluations += 1;
        i.distinct.insert(key);
    }
    /// An execution that was judged but is too small to count as a distinct non-trivial case.
    pub fn eval_trivial(&self) { self.inner.lock().unwrap().evaluations += 1; }
    pub fn count(&self, name: &str, n: u64) {
        let mut i = self.inner.lock().unwrap();
        match i.counters.get_mut(name) {
            Some(c) => *c += n,
            None => { i.counters.insert(name.to_string(), n); }
        }
    }
    pub fn counter(&self, name: &str) -> u64 { self.inner.lock().unwrap().counters.get(name).copied().unwrap_or(0) }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 4 {
            let mut t = s();
            if t.len() > 1500 {
                let mut n = 1500;
                while !t.is_char_boundary(n) { n -= 1; }
                t.truncate(n);
            }
            i.samples.push(t);
        }
    }
    /// Whether a finding with this key is listed; if so it is reported as such at the end.
    pub fn known(&self, key: &str) -> bool {
        let hit = self.known.iter().any(|(k, _)| k == key);
        if hit {
            self.inner.lock().unwrap().known_hits.insert(key.to_string());
        }
        hit
    }
    pub fn violation(&self, what: impl Into<String>, replay: impl Into<String>) {
        let mut i = self.inner.lock().unwrap();
        let w = what.into();
        i.violations.push((w, replay.into()));
    }
    /// A violation that is on record even if making it smaller does not end.
    pub fn violation_then(&self, what: String, replay: String, smaller: impl FnOnce() -> Option<(String, String)>) {
        let at = {
            let mut i = self.inner.lock().unwrap();
            i.violations.push((what, replay));
            i.violations.len() - 1
        };
        if let Ok(Some(v)) = catch(smaller) { self.inner.lock().unwrap().violations[at] = v }
    }
    pub fn has_violation(&self) -> bool { !self.inner.lock().unwrap().violations.is_empty() }
    pub fn stop(&self) -> bool { !self.time_left() || self.inner.lock().unwrap().violations.len() >= max_violations() }
    /// Writes evidence and replays, prints verdict lines, returns the exit code.
    pub fn finish(&self, level: &str, rule: &str) -> i32 {
        let floor = floor(&self.ctx.property);
        let i = self.inner.lock().unwrap();
        let mut code = 0;
        let out = self.ctx.verif.join("out").join(&self.ctx.property);
        for (k, w) in &self.known {
            // every listed finding is probed on every run; it is printed when it still fails
            if i.known_hits.contains(k) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.ctx.property, w, k);
            }
        }
        if !i.violations.is_empty() {
            let _ = std::fs::create_dir_all(&out);
            for (n, (what, replay)) in i.violations.iter().enumerate().take(max_violations()) {
                let p = out.join(format!("replay-{}-{n}.txt", self.ctx.seed));
                let _ = std::fs::write(&p, format!("property: {}\nseed: {}\nwhat: {}\n\n{}\n", self.ctx.property, self.ctx.seed, what, replay));
                println!("VIOLATION property={} replay={}", self.ctx.property, p.display());
                println!("  {}", what.lines().next().unwrap_or(""));
            }
            code = 1;
        }
        let distinct = i.distinct.len() as u64;
        let mut cov: Value = json!({
            "evaluations": i.evaluations,
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": i.samples,
        });
        cov["observed"] = json!(i.counters);
        let ev = json!({
            "property": self.ctx.property, "tier": self.ctx.tier, "seed": self.ctx.seed, "level": level,
            "coverage": cov, "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        });
        let evdir = self.ctx.verif.join("evidence");
        let _ = std::fs::create_dir_all(&evdir);
        std::fs::write(evdir.join(format!("{}.json", self.ctx.property)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
        println!("{}: {} evaluations, {} distinct, {:.1}s", self.ctx.property, i.evaluations, distinct, self.start.elapsed().as_secs_f64());
        for (k, v) in &i.counters {
            println!("  {k}: {v}");
        }
        if code == 0 && distinct < floor {
            eprintln!("inconclusive: only {distinct} distinct cases observed (floor {floor})");
            code = 2;
        }
        code
    }
}
static WATCHED: Mutex<Vec<(std::thread::ThreadId, Instant, String)>> = Mutex::new(vec![]);
static RUNNING: std::sync::OnceLock<&'static Report> = std::sync::OnceLock::new();
/// Runs `f` on the case `text`; a case that does not end within the watcher's limit is a violation.
pub fn watched<T>(text: &str, f: impl FnOnce() -> T) -> T {
    let me = std::thread::current().id();
    WATCHED.lock().unwrap().push((me, Instant::now(), text.to_string()));
    let r = f();
    WATCHED.lock().unwrap().retain(|w| w.0 != me);
    r
}
/// Ends the run with a violation when one watched case takes longer than `limit` seconds.
pub fn watch(rep: &'static Report, limit: u64) {
    let _ = RUNNING.set(rep);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let stuck = WATCHED.lock().unwrap().iter().find(|w| w.1.elapsed().as_secs() >= limit).map(|w| w.2.clone());
        if rep.has_violation() && rep.start.elapsed().as_secs_f64() > rep.ctx.seconds + 60.0 {
            let code = rep.finish("exploration", "cases until one failed");
            std::process::exit(code);
        }
        if let Some(t) = stuck {
            rep.violation(format!("no answer within {limit} s"), t);
            let code = rep.finish("exploration", "cases until one did not end");
            std::process::exit(code);
        }
    });
}
/// Runs `f(thread_index, rng)` on `n` threads with big stacks.
pub fn parallel(n: usize, seed: u64, f: impl Fn(usize, crate::rng::Rng) + Sync) {
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        let rng = crate::rng::Rng::new(seed.wrapping_mul(1000003).wrapping_add(t as u64));
                        let Some(rep) = RUNNING.get() else { return f(t, rng) };
                        // what no run of the real code looked like so far
                        if let Err(e) = catch(|| f(t, rng)) {
                            let me = std::thread::current().id();
                            let text = WATCHED.lock().unwrap().iter().find(|w| w.0 == me).map(|w| w.2.clone());
                            WATCHED.lock().unwrap().retain(|w| w.0 != me);
                            rep.violation(format!("what was observed is beyond the monitor's model: {e}"), text.unwrap_or_default());
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                eprintln!("harness thread panicked");
                std::process::exit(2);
            }
        }
    });
}
/// Runs `f`, turning a panic into its message (the location is in the message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    let outer = CAPTURE.with(|c| c.borrow_mut().replace(String::new()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let msg = CAPTURE.with(|c| std::mem::replace(&mut *c.borrow_mut(), outer)).unwrap_or_default();
    r.map_err(|e| {
        if !msg.is_empty() {
            return msg;
        }
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic without message".into()
        }
    })
}
thread_local! { static CAPTURE: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let captured = CAPTURE.with(|c| {
                if let Some(s) = c.borrow_mut().as_mut() {
                    *s = format!("{info}");
                    true
                } else {
                    false
                }
            });
            if !captured {
                old(info);
            }
        }));
    });
}
/// Violations after which a run ends (a development knob; 3 otherwise).
fn max_violations() -> usize {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *N.get_or_init(|| std::env::var("VERIF_MAXVIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(3))
}
