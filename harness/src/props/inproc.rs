//! The blocking entry points (sync_launch) with in-process evaluation on real threads.
use super::*;
use crate::model::*;
use crate::proc::{self, parse_row, Row, Scratch};
use crate::props::cli::{best_seen_file_at, RawJson};
use crate::{ensure, viol};
use cambrian::error::Error;
use cambrian::meta::{make_obj_func, AlgoConfig, AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::result::FinalReport;
use cambrian::sync_launch::{self, DetailedReportingFileInfo};
use cambrian::termination::TerminationCriterion as T;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Ev {
    pub n: usize,
    pub value: J,
    pub text: String,
    pub began: Instant,
    pub ended: Option<Instant>,
    pub ret: Option<f64>,
    /// only known to asynchronous objective functions
    pub seed: Option<u64>,
    pub id: Option<usize>,
    pub aborted: bool,
    pub failed: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Flavor {
    /// plain closure on worker threads
    Threads,
    /// asynchronous function, multi-thread runtime
    AsyncMulti,
    /// asynchronous function, current-thread runtime
    AsyncSingle,
}

#[derive(Clone, Debug)]
pub struct Job {
    m: M,
    flavor: Flavor,
    conc: usize,
    sample: usize,
    budget: Option<usize>,
    target: Option<f64>,
    after: Option<Duration>,
    guess: Option<J>,
    modulus: u64,
    shape: u8,
    /// evaluation n is rejected, fails, takes this long (us)
    reject: HashSet<usize>,
    fail: HashSet<usize>,
    hit: Option<usize>,
    nonfinite: Option<(usize, f64)>,
    delay: HashMap<usize, u64>,
    barrier: bool,
    files: bool,
    /// evaluation n ends only after so many later ones have started
    straggle: HashMap<usize, usize>,
}

struct Shared {
    job: Job,
    evs: Mutex<Vec<Ev>>,
    started: AtomicUsize,
    running: AtomicUsize,
    max_running: AtomicUsize,
    barrier_failed: AtomicUsize,
}

pub struct Done {
    pub evs: Vec<Ev>,
    pub max_running: usize,
    pub barrier_failed: usize,
    pub res: Result<FinalReport, Error>,
    pub returned: Instant,
    pub wall: f64,
    pub files: BTreeMap<String, Vec<u8>>,
    pub rows: Vec<Row>,
}

fn value_of(j: &Job, v: &J) -> f64 {
    let k = crate::model::sig_json(v) % j.modulus;
    match j.shape {
        // of both signs
        1 => k as f64 / 8.0 - j.modulus as f64 / 16.0,
        // a few units in the last place apart
        2 => f64::from_bits(1f64.to_bits() + k),
        3 => -f64::from_bits(1e9f64.to_bits() + k),
        4 => (k as f64 - j.modulus as f64 / 2.0) / j.modulus as f64 * 1e300,
        5 => f64::from_bits(k),
        _ => k as f64 / 8.0,
    }
}

impl Shared {
    fn begin(&self, value: &J, seed: Option<u64>, id: Option<usize>) -> usize {
        let r = self.running.fetch_add(1, SeqCst) + 1;
        self.max_running.fetch_max(r, SeqCst);
        let mut e = self.evs.lock().unwrap();
        let n = e.len();
        e.push(Ev { n, value: value.clone(), text: value.to_string(), began: Instant::now(), ended: None, ret: None, seed, id, aborted: false, failed: false });
        self.started.store(n + 1, SeqCst);
        n
    }
    fn outcome(&self, n: usize, value: &J) -> Option<f64> {
        if self.job.reject.contains(&n) {
            None
        } else if let Some((_, x)) = self.job.nonfinite.filter(|x| x.0 == n) {
            Some(x)
        } else if self.job.hit == Some(n) {
            Some(-50.0)
        } else {
            Some(value_of(&self.job, value))
        }
    }
    fn end(&self, n: usize, ret: Option<f64>, aborted: bool, failed: bool) {
        let mut e = self.evs.lock().unwrap();
        e[n].ended = Some(Instant::now());
        e[n].ret = ret;
        e[n].aborted = aborted;
        e[n].failed = failed;
        // no longer in progress before the tool can know
        self.running.fetch_sub(1, SeqCst);
    }
    fn want(&self, n: usize) -> usize {
        (n / self.job.conc + 1) * self.job.conc
    }
}

/// Ten seconds in which the waiting one itself got to run: a machine that stands still for a while does not count.
struct Patience(Instant, Duration);
impl Patience {
    fn new() -> Self {
        Patience(Instant::now(), Duration::ZERO)
    }
    fn over(&mut self) -> bool {
        let now = Instant::now();
        self.1 += (now - self.0).min(Duration::from_millis(20));
        self.0 = now;
        self.1 > Duration::from_secs(10)
    }
}

struct AsyncObj(Arc<Shared>);

struct Slot<'a>(&'a Shared, usize, bool);
impl Drop for Slot<'_> {
    fn drop(&mut self) {
        if !self.2 {
            // abandoned
            self.0.end(self.1, None, true, false);
        }
    }
}

#[async_trait::async_trait]
impl AsyncObjectiveFunction for AsyncObj {
    async fn evaluate(&self, value: J, mut abort: async_broadcast::Receiver<()>, seed: u64, id: usize) -> Result<Option<f64>, Error> {
        let s = &*self.0;
        let n = s.begin(&value, Some(seed), Some(id));
        let mut slot = Slot(s, n, false);
        let work = async {
            if s.job.barrier {
                let mut w = Patience::new();
                while s.started.load(SeqCst) < s.want(n) && s.barrier_failed.load(SeqCst) == 0 {
                    if w.over() {
                        s.barrier_failed.fetch_add(1, SeqCst);
                        break;
                    }
                    tokio::time::sleep(Duration::from_micros(if s.job.conc > 16 { 2000 } else { 200 })).await;
                }
            }
            if let Some(k) = s.job.straggle.get(&n) {
                let t = Instant::now();
                while s.started.load(SeqCst) <= n + k && t.elapsed() < Duration::from_secs(5) {
                    tokio::time::sleep(Duration::from_micros(200)).await;
                }
            }
            match s.job.delay.get(&n) {
                Some(0) => tokio::task::yield_now().await,
                Some(us) => tokio::time::sleep(Duration::from_micros(*us)).await,
                None => {}
            }
        };
        let aborted = tokio::select! {
            _ = work => false,
            _ = abort.recv() => true,
        };
        slot.2 = true;
        if aborted {
            s.end(n, None, true, false);
            return Ok(None);
        }
        if s.job.fail.contains(&n) {
            s.end(n, None, false, true);
            return Err(Error::from(std::io::Error::new(std::io::ErrorKind::Other, format!("failure of evaluation {n}"))));
        }
        let r = s.outcome(n, &value);
        s.end(n, r, false, false);
        Ok(r)
    }
}

pub fn run(j: &Job) -> Done {
    let s = Scratch::new();
    let sh = Arc::new(Shared {
        job: j.clone(),
        evs: Mutex::new(vec![]),
        started: AtomicUsize::new(0),
        running: AtomicUsize::new(0),
        max_running: AtomicUsize::new(0),
        barrier_failed: AtomicUsize::new(0),
    });
    let mut crit = vec![];
    if let Some(n) = j.budget {
        crit.push(T::NumObjFuncEval(n));
    }
    if let Some(t) = j.target {
        crit.push(T::TargetObjFuncVal(t));
    }
    if let Some(d) = j.after {
        crit.push(T::TerminateAfter(d));
    }
    let conf: AlgoConfig = AlgoConfigBuilder::new().num_concurrent(j.conc).individual_sample_size(j.sample).build().expect("config");
    let info = DetailedReportingFileInfo {
        detailed_report_file_path: s.dir.join("detailed_report.csv"),
        best_seen_file_path: s.dir.join("best_seen.json"),
    };
    let info = j.files.then_some(&info);
    let spec = cambrian::spec::Spec(j.m.to_spec());
    let t0 = Instant::now();
    let res = match j.flavor {
        Flavor::Threads => {
            let sh = sh.clone();
            let f = make_obj_func(move |value: J| {
                let s = &*sh;
                let n = s.begin(&value, None, None);
                if s.job.barrier {
                    let mut w = Patience::new();
                    while s.started.load(SeqCst) < s.want(n) && s.barrier_failed.load(SeqCst) == 0 {
                        if w.over() {
                            s.barrier_failed.fetch_add(1, SeqCst);
                            break;
                        }
                        std::thread::sleep(Duration::from_micros(if s.job.conc > 16 { 2000 } else { 50 }));
                    }
                }
                if let Some(k) = s.job.straggle.get(&n) {
                    let t = Instant::now();
                    while s.started.load(SeqCst) <= n + k && t.elapsed() < Duration::from_secs(5) {
                        std::thread::sleep(Duration::from_micros(100));
                    }
                }
                match s.job.delay.get(&n) {
                    Some(0) => std::thread::yield_now(),
                    Some(us) => std::thread::sleep(Duration::from_micros(*us)),
                    None => {}
                }
                let r = s.outcome(n, &value);
                s.end(n, r, false, false);
                r
            });
            sync_launch::launch(spec, f, conf, crit, j.guess.clone(), true, info)
        }
        x => sync_launch::launch_with_async_obj_func(spec, AsyncObj(sh.clone()), conf, crit, j.guess.clone(), x == Flavor::AsyncMulti, info),
    };
    let returned = Instant::now();
    let files = proc::read_tree(&s.dir);
    let rows = files
        .get("detailed_report.csv")
        .map(|b| String::from_utf8_lossy(b).lines().skip(1).filter_map(parse_row).collect())
        .unwrap_or_default();
    let evs = sh.evs.lock().unwrap().clone();
    Done { evs, max_running: sh.max_running.load(SeqCst), barrier_failed: sh.barrier_failed.load(SeqCst), res, returned, wall: (returned - t0).as_secs_f64(), files, rows }
}

// ------------------------------------------------------------------ generation

fn base_job(c: &mut Case) -> Job {
    let r = &mut c.rng;
    let m = gen_space(r, 20);
    let conc = *[1, 1, 2, 3, 4, 8, 16].choose(r).unwrap();
    let budget = r.gen_range(0..120);
    let mut delay = HashMap::new();
    if r.gen_bool(0.7) {
        let p = *[0.1, 0.5, 1.0].choose(r).unwrap();
        let most = *[1u64, 100, 1000, 3000].choose(r).unwrap();
        for k in 0..budget {
            if r.gen_bool(p) {
                delay.insert(k, r.gen_range(0..most));
            }
        }
    }
    let rej = *[0.0, 0.0, 0.2, 0.9].choose(r).unwrap();
    let reject = (0..budget.max(500)).filter(|_| r.gen_bool(rej)).collect();
    let guess = r.gen_bool(0.3).then(|| m.gen_node(r, 5).to_json());
    let guess = guess.filter(|g| m.conforms(g).is_ok() && !m.has_ambiguous_opt());
    Job {
        flavor: *[Flavor::Threads, Flavor::Threads, Flavor::AsyncMulti, Flavor::AsyncSingle].choose(r).unwrap(),
        conc,
        sample: *[1, 1, 1, 2, 3].choose(r).unwrap(),
        budget: Some(budget),
        target: None,
        after: None,
        guess,
        modulus: *[1, 5, 50, 100000].choose(r).unwrap(),
        shape: *[0, 0, 0, 1, 2, 3, 4, 5].choose(r).unwrap(),
        reject,
        fail: HashSet::new(),
        hit: None,
        nonfinite: None,
        delay,
        barrier: false,
        straggle: HashMap::new(),
        files: r.gen_bool(0.7),
        m,
    }
}

fn describe(j: &Job) -> String {
    let mut rej: Vec<_> = j.reject.iter().filter(|x| **x < 40).copied().collect();
    rej.sort();
    format!(
        "sync_launch {:?} concurrent {} sample {} budget {:?} target {:?} after {:?} guess {:?} modulus {} shape {} reject {rej:?} fail {:?} nonfinite {:?} hit {:?} delays {} barrier {} files {} straggling {:?} spec:\n{}",
        j.flavor, j.conc, j.sample, j.budget, j.target, j.after, j.guess.as_ref().map(|g| g.to_string()), j.modulus, j.shape, j.fail, j.nonfinite, j.hit, j.delay.len(), j.barrier, j.files, j.straggle,
        proc::short(&j.m.yaml(), 1500)
    )
}

fn observed(c: &mut Case, j: &Job, d: &Done) {
    c.note = describe(j);
    c.count("runs_on_real_threads", (j.flavor == Flavor::Threads) as u64);
    c.count("runs", 1);
    c.count("evaluations_observed", d.evs.len() as u64);
    c.count("report_rows", d.rows.len() as u64);
    c.count("aborted_or_abandoned", d.evs.iter().filter(|e| e.aborted || e.ended.is_none()).count() as u64);
    c.max("at_once", d.max_running as u64);
    c.count(if d.res.is_ok() { "ended_ok" } else { "ended_with_error" }, 1);
    let mut order: Vec<(Instant, usize)> = d.evs.iter().flat_map(|e| [(e.began, 2 * e.n), (e.ended.unwrap_or(d.returned), 2 * e.n + 1)]).collect();
    order.sort();
    c.distinct((describe(j), order.iter().map(|x| x.1).collect::<Vec<_>>()));
    let (n, mx, ok) = (d.evs.len(), d.max_running, d.res.is_ok());
    c.sample(|| json!({"job": describe(j), "evaluations": n, "at_once": mx, "ok": ok}));
}

fn case(c: &mut Case, j: Job, judge: impl Fn(&Job, &Done) -> R) -> R {
    c.note = describe(&j);
    let d = run(&j);
    observed(c, &j, &d);
    judge(&j, &d).map_err(|v| Viol { msg: format!("{}\n  in {}", v.msg, describe(&j)), ..v })
}

fn described(d: &Done) -> R {
    if let Err(e) = &d.res {
        ensure!(!e.to_string().trim().is_empty(), "error without a description: {e:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ judges

pub fn j_c01(j: &Job, d: &Done) -> R {
    for e in &d.evs {
        j.m.conforms(&e.value).map_err(|x| format!("evaluation {} got a non-conforming parameter set: {x}\n {}", e.n, e.text))?;
    }
    if let Ok(r) = &d.res {
        j.m.conforms(&r.best_seen.value).map_err(|x| format!("best-seen value does not conform: {x}"))?;
    }
    described(d)
}

pub fn j_c02(j: &Job, d: &Done) -> R {
    let acc: Vec<&Ev> = d.evs.iter().filter(|e| e.ret.is_some()).collect();
    match &d.res {
        Ok(r) => {
            let (b, v) = (r.best_seen.obj_func_val, r.best_seen.value.to_string());
            if j.sample == 1 {
                let min = acc.iter().filter_map(|e| e.ret).fold(f64::INFINITY, f64::min);
                // threads that were told to abort may have ended after the run stopped listening
                if j.target.is_none() && j.after.is_none() {
                    ensure!(b == min, "best-seen objective {b}, minimum of the accepted evaluations {min}");
                }
                ensure!(acc.iter().any(|e| e.text == v && e.ret == Some(b)), "reported value was never evaluated to {b}: {v}");
            } else {
                let same: Vec<&&Ev> = acc.iter().filter(|e| e.text == v).collect();
                ensure!(same.len() >= j.sample, "best-seen value was accepted {} times, sample size {}", same.len(), j.sample);
                ensure!(j.hit.is_some() || (b - value_of(j, &r.best_seen.value)).abs() < 1e-9 * b.abs().max(1.0), "best-seen objective {b}, every evaluation of it returned {}", value_of(j, &r.best_seen.value));
            }
        }
        Err(e) if j.fail.is_empty() && j.target.is_none() && j.after.is_none() => {
            ensure!(j.sample > 1 || acc.is_empty(), "the run ends with {e} although {} evaluations were accepted", acc.len());
        }
        Err(_) => {}
    }
    Ok(())
}

pub fn j_c03(j: &Job, d: &Done) -> R {
    let Some(n) = j.budget else { return Ok(()) };
    ensure!(d.evs.len() <= n, "{} evaluations started, budget {n}", d.evs.len());
    if j.fail.is_empty() && j.target.is_none() && j.after.is_none() {
        ensure!(d.evs.len() == n, "{} evaluations started, budget {n}", d.evs.len());
        if let Ok(r) = &d.res {
            ensure!(r.num_obj_func_eval_completed + r.num_obj_func_eval_rejected == n, "counts {} + {}, budget {n}", r.num_obj_func_eval_completed, r.num_obj_func_eval_rejected);
        }
    }
    Ok(())
}

pub fn j_c05(j: &Job, d: &Done) -> R {
    ensure!(d.max_running <= j.conc, "{} evaluations in progress at once, num_concurrent {}", d.max_running, j.conc);
    ensure!(d.barrier_failed == 0, "{} evaluations waited in vain for their batch of {} to be in progress", d.barrier_failed, j.conc);
    // one individual is never evaluated twice at the same time
    for (i, a) in d.evs.iter().enumerate() {
        for b in &d.evs[..i] {
            if a.id.is_some() && a.id == b.id {
                ensure!(b.ended.map_or(false, |e| e <= a.began), "individual {:?} is evaluated twice at the same time", a.id);
            }
        }
    }
    Ok(())
}

pub fn j_c08(j: &Job, d: &Done) -> R {
    let want = j.guess.clone().unwrap_or_else(|| j.m.init_json());
    if j.conc == 1 || j.flavor != Flavor::Threads {
        if let Some(e) = d.evs.first() {
            ensure!(same_json(&e.value, &want), "the first parameter set is {} instead of {want}", e.text);
        }
    } else if !d.evs.is_empty() {
        // a thread may be held up between being given its parameter set and being seen here for as long as the
        // others need for any number of evaluations, but the launch does not return before it has run
        ensure!(d.evs.iter().any(|e| same_json(&e.value, &want)), "none of the {} parameter sets is the initial value {want}", d.evs.len());
    }
    let mut seeds = HashSet::new();
    let mut ids: BTreeMap<usize, (String, usize)> = BTreeMap::new();
    for e in &d.evs {
        if let (Some(s), Some(i)) = (e.seed, e.id) {
            ensure!(seeds.insert(s), "two evaluations were given the seed {s}");
            let x = ids.entry(i).or_insert_with(|| (e.text.clone(), 0));
            x.1 += 1;
            ensure!(x.0 == e.text, "individual {i} has two parameter sets: {} and {}", x.0, e.text);
            ensure!(x.1 <= j.sample, "individual {i} is evaluated {} times, sample size {}", x.1, j.sample);
        }
    }
    Ok(())
}

/// evaluations that a time limit can abort after they were given to a thread and before that thread got round to them
fn unseen(j: &Job) -> usize {
    if j.flavor == Flavor::Threads && j.after.is_some() { j.conc } else { 0 }
}

pub fn j_c14(j: &Job, d: &Done) -> R {
    if let Ok(r) = &d.res {
        let acc = d.evs.iter().filter(|e| e.ret.is_some()).count();
        let (a, b) = (r.num_obj_func_eval_completed, r.num_obj_func_eval_rejected);
        if j.target.is_none() && j.after.is_none() {
            ensure!(a == acc && a + b == d.evs.len(), "counts {a} completed / {b} rejected, {acc} accepted of {} evaluations", d.evs.len());
        } else {
            ensure!(a <= acc && a + b <= d.evs.len() + unseen(j), "counts {a} completed / {b} rejected, {acc} accepted of {} evaluations", d.evs.len());
        }
        if j.files {
            ensure!(d.rows.len() == a + b, "{} records, {a} + {b} evaluations counted", d.rows.len());
            ensure!(d.rows.iter().filter(|x| x.obj.is_some()).count() == a, "{} records with a result, {a} completed evaluations counted", d.rows.iter().filter(|x| x.obj.is_some()).count());
        }
    }
    if !j.files {
        ensure!(d.files.is_empty(), "files written without being asked for: {:?}", d.files.keys());
        return Ok(());
    }
    let Some(b) = d.files.get("detailed_report.csv") else { viol!("no detailed report") };
    let t = String::from_utf8_lossy(b).to_string();
    ensure!(t.is_empty() || t.ends_with('\n'), "the detailed report ends in the middle of a line: {:?}", t.lines().last());
    ensure!(t.lines().skip(1).count() == d.rows.len(), "malformed records in the detailed report");
    let mut seeds = HashSet::new();
    let mut pool: HashMap<(String, Option<u64>), usize> = HashMap::new();
    for e in d.evs.iter() {
        if e.aborted || e.failed {
            *pool.entry((e.text.clone(), None)).or_default() += !e.failed as usize;
        } else {
            *pool.entry((e.text.clone(), e.ret.map(f64::to_bits))).or_default() += 1;
        }
        // a thread's evaluation may be told to abort at any time: recorded as rejected
        if j.flavor == Flavor::Threads && j.after.is_some() && e.ret.is_some() {
            *pool.entry((e.text.clone(), None)).or_default() += 1;
        }
    }
    let mut strangers = 0;
    for row in &d.rows {
        ensure!(seeds.insert(row.seed), "two records with seed {}", row.seed);
        crate::oracle::check_csv(&row.raw, row.id, row.seed, &RawJson(&row.value), row.obj)?;
        let k = (row.value.clone(), row.obj.map(f64::to_bits));
        match pool.get_mut(&k) {
            Some(n) if *n > 0 => *n -= 1,
            _ if row.obj.is_none() && strangers < unseen(j) => strangers += 1,
            _ => viol!("record {} belongs to no evaluation", row.raw),
        }
        if let Some(e) = d.evs.iter().find(|e| e.seed == Some(row.seed)) {
            ensure!(e.id == Some(row.id) && e.text == row.value, "record {} belongs to the evaluation of individual {:?} with {}", row.raw, e.id, e.text);
            ensure!(row.obj == if e.aborted { None } else { e.ret }, "record {} has another result than {:?}", row.raw, e.ret);
        }
    }
    best_seen_file_at(&d.rows, &d.files, j.sample == 1)?;
    if let (Ok(r), 1) = (&d.res, j.sample) {
        let min = d.rows.iter().filter_map(|x| x.obj).fold(f64::INFINITY, f64::min);
        ensure!(min == r.best_seen.obj_func_val, "minimum of the records {min}, reported {}", r.best_seen.obj_func_val);
    }
    Ok(())
}

// ------------------------------------------------------------------ suites

fn plain(c: &mut Case, f: fn(&Job, &Done) -> R) -> R {
    let j = base_job(c);
    case(c, j, f)
}
pub fn c01(c: &mut Case) -> R {
    plain(c, j_c01)
}
pub fn c02(c: &mut Case) -> R {
    let mut j = base_job(c);
    if c.rng.gen_bool(0.15) {
        with_straggler(c, &mut j);
    }
    case(c, j, j_c02)
}

/// one or two evaluations take as long as hundreds of others; one of them often returns the best value
fn with_straggler(c: &mut Case, j: &mut Job) {
    j.conc = *[2, 3, 4, 8, 16].choose(&mut c.rng).unwrap();
    let n = c.rng.gen_range(0..20);
    let k = *[20, 70, 110, 150, 300].choose(&mut c.rng).unwrap();
    j.straggle.insert(n, k);
    if j.conc > 2 && c.rng.gen() {
        j.straggle.insert(n + c.rng.gen_range(1..30), c.rng.gen_range(1..k));
    }
    j.delay.clear();
    j.budget = Some(n + k + c.rng.gen_range(5..60));
    if c.rng.gen_bool(0.7) {
        j.hit = Some(n);
        j.reject.remove(&n);
        j.sample = 1;
    }
}
pub fn c03(c: &mut Case) -> R {
    plain(c, j_c03)
}
pub fn c08(c: &mut Case) -> R {
    plain(c, j_c08)
}
pub fn c14(c: &mut Case) -> R {
    let mut j = base_job(c);
    j.files = c.rng.gen_bool(0.95);
    match c.rng.gen_range(0..9) {
        0 | 1 => with_target(c, &mut j),
        2 | 3 => with_limit(c, &mut j),
        8 => with_straggler(c, &mut j),
        4 | 5 => {
            j.flavor = if c.rng.gen() { Flavor::AsyncMulti } else { Flavor::AsyncSingle };
            let n = j.budget.unwrap().max(1);
            for _ in 0..c.rng.gen_range(1..3) {
                j.fail.insert(c.rng.gen_range(0..n));
            }
        }
        _ => {}
    }
    case(c, j, j_c14)
}

pub fn c05(c: &mut Case) -> R {
    let mut j = base_job(c);
    if c.rng.gen_bool(0.7) {
        j.conc = c.rng.gen_range(1..=16);
        j.barrier = true;
        j.budget = Some(j.conc * c.rng.gen_range(1..=8));
        j.delay.clear();
    }
    case(c, j, j_c05)
}

/// many short runs in each of which every evaluation has to be in progress together with its whole batch
pub fn handover(c: &mut Case) -> R {
    let mut j = base_job(c);
    j.flavor = Flavor::Threads;
    j.m = gen_space(&mut c.rng, 3);
    j.guess = None;
    j.conc = *[2, 2, 2, 3, 5, 8].choose(&mut c.rng).unwrap();
    j.barrier = true;
    j.budget = Some(j.conc * c.rng.gen_range(2..=6));
    j.delay.clear();
    case(c, j, j_c05)
}

/// more evaluations at once than there are processors, or than a runtime has blocking threads by default
pub fn crowd(c: &mut Case) -> R {
    let mut j = base_job(c);
    j.flavor = *[Flavor::Threads, Flavor::Threads, Flavor::AsyncMulti, Flavor::AsyncSingle].choose(&mut c.rng).unwrap();
    j.m = gen_space(&mut c.rng, 3);
    j.guess = None;
    j.conc = *[17, 33, 65, 129, 300, 520, 600].choose(&mut c.rng).unwrap();
    j.barrier = true;
    j.budget = Some(j.conc * c.rng.gen_range(1..=3));
    j.delay.clear();
    case(c, j, j_c05)
}

/// the best value is returned by a chosen evaluation
fn with_target(c: &mut Case, j: &mut Job) {
    let n = j.budget.unwrap().max(1);
    let k = c.rng.gen_range(0..n);
    j.hit = Some(k);
    j.shape = 0;
    j.budget = Some(n);
    j.reject.remove(&k);
    j.sample = 1;
    j.target = Some(*[-50.0, -49.5, -1.0].choose(&mut c.rng).unwrap());
    if c.rng.gen() {
        j.budget = None;
    }
    // the others are slow
    for x in k + 1..k + 40 {
        j.delay.insert(x, if j.flavor == Flavor::Threads { 30_000 } else { 20_000_000 });
    }
}

/// a time limit while some are at work
fn with_limit(c: &mut Case, j: &mut Job) {
    let lead = c.rng.gen_range(0..30usize);
    j.budget = None;
    j.after = Some(Duration::from_millis(c.rng.gen_range(20..120)));
    j.delay.clear();
    for k in 0..lead {
        j.delay.insert(k, c.rng.gen_range(0..300));
    }
    for k in lead..lead + 64 {
        j.delay.insert(k, if j.flavor == Flavor::Threads { 400_000 } else { 20_000_000 });
    }
}

pub fn c04(c: &mut Case) -> R {
    let mut j = base_job(c);
    let target = c.rng.gen();
    if target {
        with_target(c, &mut j);
    } else {
        with_limit(c, &mut j);
    }
    case(c, j, |j, d| {
        ensure!(d.wall < 15.0, "the run took {:.1} s although everything honours the abort", d.wall);
        if let Some(k) = j.hit {
            let Ok(r) = &d.res else { viol!("target reached by evaluation {k}, but the run ends with {:?}", d.res.as_ref().err()) };
            ensure!(r.best_seen.obj_func_val <= j.target.unwrap(), "target {:?}, reported {}", j.target, r.best_seen.obj_func_val);
            let Some(h) = d.evs.get(k).and_then(|e| e.ended) else { viol!("evaluation {k} never ended") };
            // everything that starts later than a generous time to process that result is one too many
            for e in &d.evs {
                ensure!(e.began < h + Duration::from_secs(2), "evaluation {} started {:.1} s after the target was reached", e.n, (e.began - h).as_secs_f64());
            }
            ensure!(d.evs.len() <= k + 1 + j.conc * 2, "{} evaluations started, evaluation {k} reached the target", d.evs.len());
        } else {
            let limit = j.after.unwrap().as_secs_f64();
            ensure!(d.wall >= limit * 0.9, "stopped after {:.3} s, time limit {limit}", d.wall);
            let acc: Vec<f64> = d.evs.iter().filter(|e| e.ended.is_some_and(|x| x < e.began + Duration::from_millis(300)) && !e.aborted).filter_map(|e| e.ret).collect();
            let best = acc.iter().copied().fold(f64::INFINITY, f64::min);
            match &d.res {
                Ok(r) if j.sample == 1 => ensure!(d.evs.iter().any(|e| e.ret == Some(r.best_seen.obj_func_val)), "reports {}", r.best_seen.obj_func_val),
                Ok(_) => {}
                // what ended just before the limit may count as aborted
                Err(e) => ensure!(acc.len() <= j.conc || j.sample > 1, "ends with {e} although {} evaluations were accepted, best {best}", acc.len()),
            }
        }
        Ok(())
    })
}

pub fn c06(c: &mut Case) -> R {
    let mut j = base_job(c);
    j.flavor = if c.rng.gen() { Flavor::AsyncMulti } else { Flavor::AsyncSingle };
    let lead = c.rng.gen_range(0..60usize);
    j.budget = if c.rng.gen() { None } else { Some(lead + 1 + c.rng.gen_range(0..200)) };
    j.fail.insert(lead);
    for k in lead + 1..lead + 200 {
        j.delay.insert(k, 20_000_000);
    }
    if c.rng.gen_bool(0.4) {
        j.fail.clear();
        j.reject.remove(&lead);
        j.nonfinite = Some((lead, *[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN].choose(&mut c.rng).unwrap()));
        if c.rng.gen_bool(0.3) {
            // a closure cannot be told to abort
            j.flavor = Flavor::Threads;
            for us in j.delay.values_mut() {
                *us = (*us).min(600_000);
            }
        }
    }
    if c.rng.gen_bool(0.3) {
        // out of reach for every shape of results
        j.target = Some(if j.shape == 0 { -1.0 } else { -1e305 });
    }
    case(c, j, |j, d| {
        let k = j.nonfinite.map_or_else(|| *j.fail.iter().next().unwrap(), |x| x.0);
        ensure!(d.wall < 15.0, "the run took {:.1} s although everything in flight honours the abort", d.wall);
        let Err(e) = &d.res else { viol!("evaluation {k} failed but the run succeeded") };
        if j.nonfinite.is_some() {
            ensure!(format!("{e:?}").to_lowercase().contains("finite"), "evaluation {k} returned {:?}, the run ends with {e:?}", j.nonfinite);
        }
        if j.flavor == Flavor::Threads {
            ensure!(d.wall > 0.6 || d.evs.len() <= k + j.conc, "{} evaluations started, evaluation {k} failed with at most {} in progress", d.evs.len(), j.conc);
            return Ok(());
        }
        if j.nonfinite.is_some() {
            ensure!(d.evs.len() <= k + j.conc, "{} evaluations started, evaluation {k} failed with at most {} in progress", d.evs.len(), j.conc);
            for e in d.evs.iter().filter(|e| e.n > k) {
                ensure!(e.aborted, "evaluation {} was not told to abort", e.n);
            }
            return Ok(());
        }
        let t = crate::sim::err_text(e);
        ensure!(t.1.contains(&format!("failure of evaluation {k}")) || format!("{e:?}").contains(&format!("failure of evaluation {k}")), "evaluation {k} failed, the run ends with {e:?}");
        ensure!(d.evs.len() <= k + j.conc, "{} evaluations started, evaluation {k} failed with at most {} in progress", d.evs.len(), j.conc);
        for e in d.evs.iter().filter(|e| e.n > k) {
            ensure!(e.aborted, "evaluation {} was not told to abort", e.n);
        }
        Ok(())
    })
}

pub fn c15(c: &mut Case) -> R {
    let mut j = base_job(c);
    match c.rng.gen_range(0..3) {
        0 => with_target(c, &mut j),
        1 => with_limit(c, &mut j),
        _ => {}
    }
    case(c, j, |_, d| {
        ensure!(d.wall < 30.0, "the run took {:.1} s", d.wall);
        described(d)
    })
}

/// C09: one at a time, twice
pub fn c09(c: &mut Case) -> R {
    let mut j = base_job(c);
    j.conc = 1;
    let a = run(&j);
    observed(c, &j, &a);
    let mut k = j.clone();
    k.flavor = *[Flavor::Threads, Flavor::AsyncMulti, Flavor::AsyncSingle].choose(&mut c.rng).unwrap();
    k.files = c.rng.gen();
    let mut r = rand::rngs::StdRng::seed_from_u64(c.rng.gen());
    for x in k.delay.values_mut() {
        *x = r.gen_range(0..500);
    }
    let b = run(&k);
    observed(c, &k, &b);
    let res: R = (|| {
        for (x, y) in a.evs.iter().zip(&b.evs) {
            ensure!(x.text == y.text, "evaluation {}: {} in one run, {} in the other", x.n, x.text, y.text);
            ensure!(x.seed.is_none() || y.seed.is_none() || (x.seed, x.id) == (y.seed, y.id), "evaluation {}: seed and id {:?} / {:?}", x.n, (x.seed, x.id), (y.seed, y.id));
        }
        ensure!(a.evs.len() == b.evs.len(), "{} evaluations in one run, {} in the other", a.evs.len(), b.evs.len());
        match (&a.res, &b.res) {
            (Ok(x), Ok(y)) => ensure!(
                x.best_seen.obj_func_val.to_bits() == y.best_seen.obj_func_val.to_bits() && x.best_seen.value.to_string() == y.best_seen.value.to_string()
                    && x.num_obj_func_eval_completed == y.num_obj_func_eval_completed && x.num_obj_func_eval_rejected == y.num_obj_func_eval_rejected,
                "different reports: {x:?} / {y:?}"
            ),
            (Err(x), Err(y)) => ensure!(x.to_string() == y.to_string(), "different errors: {x} / {y}"),
            (x, y) => viol!("one run ends with {x:?}, the other with {y:?}"),
        }
        if j.files && k.files {
            let strip = |d: &Done| -> Vec<(usize, u64, String, String)> { d.rows.iter().map(|x| (x.id, x.seed, x.value.clone(), x.obj_text.clone())).collect() };
            ensure!(strip(&a) == strip(&b), "the detailed reports differ");
        }
        Ok(())
    })();
    res.map_err(|v| Viol { msg: format!("{}\n  in {}\n  and {:?}", v.msg, describe(&j), k.flavor), ..v })
}
