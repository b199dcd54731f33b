//! Case runner: seeds, threads, panic capture, CPU watchdog, evidence, replays, known findings.
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    /// identifies what fails (matched against known findings); empty if generic
    pub sig: String,
    pub msg: String,
}

impl From<String> for Viol {
    fn from(msg: String) -> Self {
        Viol { sig: String::new(), msg }
    }
}
impl From<&str> for Viol {
    fn from(msg: &str) -> Self {
        Viol { sig: String::new(), msg: msg.into() }
    }
}

pub type R<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::report::Viol { sig: String::new(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { $crate::viol!($($a)*) } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Case {
    pub rng: StdRng,
    pub idx: u64,
    pub seed: u64,
    pub tier: Tier,
    pub counters: BTreeMap<String, u64>,
    pub sigs: Vec<u64>,
    pub samples: Vec<J>,
    pub want_sample: bool,
    pub note: String,
}

impl Case {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max_{k}")).or_insert(0);
        *e = (*e).max(n);
    }
    /// a distinct non-trivial case
    pub fn distinct<T: Hash>(&mut self, t: T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.sigs.push(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> J) {
        if self.want_sample && self.samples.len() < 2 {
            let s = f();
            if s.to_string().len() < 6000 {
                self.samples.push(s);
            }
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

pub struct Suite {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    /// extra weight of the suite in the wall-clock budget
    pub max_quick_s: f64,
    pub max_thorough_s: f64,
    pub f: fn(&mut Case) -> R,
}

pub fn suite(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Case) -> R) -> Suite {
    Suite { name, quick, thorough, threads: 8, max_quick_s: 30.0, max_thorough_s: 240.0, f }
}

impl Suite {
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn secs(mut self, q: f64, t: f64) -> Self {
        self.max_quick_s = q;
        self.max_thorough_s = t;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn case_seed(prop: &str, suite: &str, seed: u64, idx: u64) -> u64 {
    let mut x: u64 = 0xcbf29ce484222325;
    for b in prop.bytes().chain([b'/']).chain(suite.bytes()).chain(seed.to_le_bytes()).chain(idx.to_le_bytes()) {
        x ^= b as u64;
        x = x.wrapping_mul(0x100000001b3);
        x ^= x >> 29;
    }
    x
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// panics on threads that are not case threads (e.g. tokio workers)
pub static FOREIGN_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let full = format!("{m} @ {loc}");
        let is_case = std::thread::current().name().map_or(false, |n| n.starts_with("case"));
        if is_case {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(full));
        } else {
            FOREIGN_PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(full);
        }
    }));
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    counters: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    samples: Vec<J>,
    per_suite: BTreeMap<String, J>,
    violations: Vec<(String, u64, Viol)>,
    known_hit: BTreeMap<String, u64>,
    harness_errors: Vec<String>,
}

pub struct Known {
    pub sig: String,
    pub prop: String,
    pub text: String,
}

pub fn known_findings() -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    let j: J = serde_json::from_str(&s).expect("known_findings.json");
    j["open"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| Known {
                    sig: x["signature"].as_str().unwrap().to_string(),
                    prop: x["property"].as_str().unwrap().to_string(),
                    text: x["what"].as_str().unwrap().to_string(),
                })
                .collect()
        })
        .unwrap_or_default()
}

fn cpu_of(t: libc::pthread_t) -> Option<f64> {
    unsafe {
        let mut c: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(t, &mut c) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(c, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9)
    }
}

struct Slot {
    thread: Mutex<Option<libc::pthread_t>>,
    idx: AtomicU64, // idx+1, 0 = idle
    cpu_at_start: Mutex<f64>,
    wall_at_start: Mutex<Instant>,
}

pub fn write_replay(prop: &str, suite: &str, seed: u64, idx: u64, tier: Tier, v: &Viol) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let p = dir.join(format!("{prop}-{suite}-{seed}-{idx}.json"));
    let j = json!({"property": prop, "suite": suite, "seed": seed, "idx": idx,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "signature": v.sig, "what": v.msg});
    std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).ok();
    p
}

pub const CPU_LIMIT: f64 = 60.0;
pub const WALL_LIMIT: f64 = 420.0;

pub fn run_case(prop: &str, s: &Suite, seed: u64, idx: u64, tier: Tier, want_sample: bool) -> (Case, Result<R, String>) {
    let mut case = Case {
        rng: StdRng::seed_from_u64(case_seed(prop, s.name, seed, idx)),
        idx,
        seed,
        tier,
        counters: BTreeMap::new(),
        sigs: vec![],
        samples: vec![],
        want_sample,
        note: String::new(),
    };
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut case)));
    let out = match r {
        Ok(r) => Ok(r),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            if m.contains("@ src/") {
                Err(format!("harness panic: {m}"))
            } else {
                Ok(Err(Viol { sig: String::new(), msg: format!("panic: {m} {}", case.note) }))
            }
        }
    };
    (case, out)
}

pub fn run_prop(p: &Prop, tier: Tier, seed: u64, only: Option<&str>) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let stats = Arc::new(Mutex::new(Stats::default()));
    let known = Arc::new(known_findings());
    for s in &p.suites {
        if only.map_or(false, |o| o != s.name) {
            continue;
        }
        let n = if tier == Tier::Quick { s.quick } else { s.thorough };
        if n == 0 {
            continue;
        }
        let ts = Instant::now();
        let cap = if tier == Tier::Quick { s.max_quick_s } else { s.max_thorough_s };
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let active = AtomicUsize::new(s.threads);
        let stop = AtomicBool::new(false);
        // the first violation: what takes longer than 20 s to be found after it is left
        let since = Mutex::new(None);
        let slots: Vec<Slot> = (0..s.threads)
            .map(|_| Slot { thread: Mutex::new(None), idx: AtomicU64::new(0), cpu_at_start: Mutex::new(0.0), wall_at_start: Mutex::new(Instant::now()) })
            .collect();
        std::thread::scope(|sc| {
            for k in 0..s.threads {
                let (next, done, active, stop, since, slots, stats, known) = (&next, &done, &active, &stop, &since, &slots, stats.clone(), known.clone());
                std::thread::Builder::new()
                    .name(format!("case{k}"))
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        *slots[k].thread.lock().unwrap() = Some(unsafe { libc::pthread_self() });
                        loop {
                            let idx = next.fetch_add(1, SeqCst);
                            if idx >= n || stop.load(SeqCst) || ts.elapsed().as_secs_f64() > cap || since.lock().unwrap().is_some_and(|t: Instant| t.elapsed().as_secs_f64() > 20.0) {
                                break;
                            }
                            *slots[k].cpu_at_start.lock().unwrap() = cpu_of(unsafe { libc::pthread_self() }).unwrap_or(0.0);
                            *slots[k].wall_at_start.lock().unwrap() = Instant::now();
                            slots[k].idx.store(idx + 1, SeqCst);
                            note_slot(p.id, s.name, seed, k, idx, tier);
                            let (case, r) = run_case(p.id, s, seed, idx, tier, idx < 3);
                            slots[k].idx.store(0, SeqCst);
                            let used = slots[k].wall_at_start.lock().unwrap().elapsed().as_secs_f64();
                            if used > 30.0 && std::env::var_os("VERBOSE").is_some() {
                                println!("slow: {}#{idx} {used:.1} s {}", s.name, case.note);
                            }
                            done.fetch_add(1, SeqCst);
                            let mut st = stats.lock().unwrap();
                            st.evaluations += 1;
                            for (key, v) in case.counters {
                                let key = format!("{}.{}", s.name, key);
                                let is_max = key.contains(".max_");
                                let e = st.counters.entry(key).or_insert(0);
                                *e = if is_max { (*e).max(v) } else { *e + v };
                            }
                            for x in case.sigs {
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                (s.name, x).hash(&mut h);
                                if st.sigs.len() < 20_000_000 {
                                    st.sigs.insert(h.finish());
                                }
                            }
                            for x in case.samples {
                                if st.samples.len() < 24 {
                                    st.samples.push(json!({"suite": s.name, "idx": case.idx, "case": x}));
                                }
                            }
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(v)) => {
                                    if let Some(kf) = known.iter().find(|kf| kf.prop == p.id && !v.sig.is_empty() && kf.sig == v.sig) {
                                        *st.known_hit.entry(kf.sig.clone()).or_insert(0) += 1;
                                    } else {
                                        st.violations.push((s.name.to_string(), idx, v));
                                        since.lock().unwrap().get_or_insert_with(Instant::now);
                                        if st.violations.len() >= 5 {
                                            stop.store(true, SeqCst);
                                        }
                                    }
                                }
                                Err(e) => {
                                    st.harness_errors.push(format!("{}#{idx}: {e}", s.name));
                                    stop.store(true, SeqCst);
                                }
                            }
                        }
                        // the pthread_t must not be used after this thread is gone
                        *slots[k].thread.lock().unwrap() = None;
                        active.fetch_sub(1, SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let mut tick = 0u64;
            while active.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(if tick < 50 { 2 } else { 20 }));
                tick += 1;
                if tick % 25 != 0 {
                    continue;
                }
                for sl in &slots {
                    let i = sl.idx.load(SeqCst);
                    if i == 0 {
                        continue;
                    }
                    let g = sl.thread.lock().unwrap();
                    let Some(t) = *g else { continue };
                    let used = cpu_of(t).unwrap_or(0.0) - *sl.cpu_at_start.lock().unwrap();
                    let wall = sl.wall_at_start.lock().unwrap().elapsed().as_secs_f64();
                    if sl.idx.load(SeqCst) == i && (used > CPU_LIMIT || wall > WALL_LIMIT) {
                        let v = Viol { sig: String::new(), msg: format!("no answer: case still running after {used:.0} s of CPU time and {wall:.0} s") };
                        let rp = write_replay(p.id, s.name, seed, i - 1, tier, &v);
                        let mut st = stats.lock().unwrap();
                        st.violations.push((s.name.to_string(), i - 1, v.clone()));
                        write_evidence(p, tier, seed, &st, t0);
                        println!("{}#{}: {}", s.name, i - 1, v.msg);
                        println!("VIOLATION property={} replay={}", p.id, rp.display());
                        std::io::stdout().flush().ok();
                        unsafe { libc::_exit(1) };
                    }
                }
            }
        });
        let mut st = stats.lock().unwrap();
        st.per_suite.insert(
            s.name.to_string(),
            json!({"cases": done.load(SeqCst), "planned": n, "wall_s": (ts.elapsed().as_secs_f64()*10.0).round()/10.0}),
        );
        if !st.violations.is_empty() || !st.harness_errors.is_empty() {
            break;
        }
    }
    let st = stats.lock().unwrap();
    write_evidence(p, tier, seed, &st, t0);
    for kf in known.iter().filter(|k| k.prop == p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, kf.text);
    }
    for (k, v) in &st.per_suite {
        println!("  {k}: {v}");
    }
    println!(
        "{} {:?} seed {}: {} evaluations, {} distinct, {} violations, {:.1} s",
        p.id, tier, seed, st.evaluations, st.sigs.len(), st.violations.len(), t0.elapsed().as_secs_f64()
    );
    if std::env::var_os("VERBOSE").is_some() {
        for (k, v) in &st.counters {
            println!("    {k} = {v}");
        }
    }
    if !st.harness_errors.is_empty() {
        for e in &st.harness_errors {
            println!("HARNESS-ERROR {e}");
        }
        if st.violations.is_empty() {
            return 2;
        }
    }
    let mut code = 0;
    for (s, idx, v) in st.violations.iter() {
        let rp = write_replay(p.id, s, seed, *idx, tier, v);
        let mut m = v.msg.clone();
        if m.len() > 3000 {
            let mut cut = 3000;
            while !m.is_char_boundary(cut) {
                cut -= 1;
            }
            m.truncate(cut);
        }
        println!("{s}#{idx}: [{}] {m}", v.sig);
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        code = 1;
    }
    code
}

fn write_evidence(p: &Prop, tier: Tier, seed: u64, st: &Stats, t0: Instant) {
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    let mut a: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    a.push("sanitizers: built with debug-assertions and overflow-checks; a panic or abort of the code under test counts as a violation".into());
    let j = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.sigs.len(),
            "rule": p.rule,
            "samples": st.samples,
            "observed": st.counters,
            "suites": st.per_suite,
            "known_findings_seen": st.known_hit,
        },
        "assumptions": a,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": st.violations.len(),
    });
    let path = dir.join(format!("{}.json", p.id));
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
}

// ---- current-case notes that survive an abort of the worker process
static SLOT_FILE: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();

pub fn slots_path(dir: &Path, prop: &str) -> PathBuf {
    dir.join("replays").join(format!("{prop}.slots"))
}

fn note_slot(prop: &str, suite: &str, seed: u64, k: usize, idx: u64, tier: Tier) {
    let f = SLOT_FILE.get_or_init(|| {
        if std::env::var_os("CVERIF_SUPERVISED").is_none() {
            return None;
        }
        let dir = verif_dir();
        std::fs::create_dir_all(dir.join("replays")).ok();
        std::fs::File::create(slots_path(&dir, prop)).ok()
    });
    if let Some(f) = f {
        use std::os::unix::fs::FileExt;
        let t = if tier == Tier::Quick { "q" } else { "t" };
        let s = format!("{:<99}\n", format!("{prop} {suite} {seed} {idx} {t}"));
        f.write_at(s.as_bytes(), (k * 100) as u64).ok();
    }
}
