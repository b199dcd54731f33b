//! Deterministic simulator: drives async_launch::launch by hand (own waker, own report channel, own
//! clock-free scheduler), with a scripted objective function whose completions it releases one by one.
use crate::model::M;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfig, AsyncObjectiveFunction};
use cambrian::spec::Spec;
use futures::channel::mpsc;
use futures::task::{waker, ArcWake};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::Value as J;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug)]
pub enum Strat {
    Const(f64),
    Ties(i64),
    Zeroes,
    Inc,
    Dec,
    /// +-1e300 extremes
    Extreme,
    /// larger values are better (drives sizes and magnitudes up)
    SizeMax,
    /// smaller values are better (drives maps to their minimum sizes)
    SizeMin,
    MagMax,
    Rand,
    /// values just above (and now and then at or below) a target
    Near(f64),
    RandExp,
    /// deterministic function of the parameter set
    Hash(i64),
    /// sum of squares of all numeric leaves
    Square,
    /// values of huge magnitude around a common offset, plus noise per evaluation
    Noisy,
    /// a given function of the parameter set
    F(ObjFn),
}

#[derive(Clone)]
pub struct ObjFn(pub Arc<dyn Fn(&J) -> f64 + Send + Sync>);
impl std::fmt::Debug for ObjFn {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("fn")
    }
}

pub const STRATS: &[Strat] = &[
    Strat::Const(1.0), Strat::Const(-1e300), Strat::Ties(2), Strat::Ties(7), Strat::Zeroes, Strat::Inc, Strat::Dec, Strat::Extreme,
    Strat::SizeMax, Strat::SizeMin, Strat::MagMax, Strat::Rand, Strat::RandExp, Strat::Hash(5), Strat::Hash(1000), Strat::Square, Strat::Noisy,
];

pub fn node_count(j: &J) -> usize {
    1 + match j {
        J::Array(a) => a.iter().map(node_count).sum(),
        J::Object(o) => o.values().map(node_count).sum(),
        _ => 0,
    }
}

/// a run that has seen this many nodes is terminated (unbounded maps can grow without limit)
const MAX_VOLUME: usize = 400_000;

pub fn num_leaves(j: &J, out: &mut Vec<f64>) {
    match j {
        J::Number(n) => out.extend(n.as_f64()),
        J::Array(a) => a.iter().for_each(|x| num_leaves(x, out)),
        J::Object(o) => o.values().for_each(|x| num_leaves(x, out)),
        _ => {}
    }
}

fn clampf(x: f64) -> f64 {
    if x.is_nan() { 0.0 } else { x.clamp(-1e300, 1e300) }
}

/// the neighbouring floating point numbers
pub fn above(x: f64) -> f64 {
    if x == 0.0 {
        f64::from_bits(1)
    } else if x > 0.0 {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    }
}

pub fn below(x: f64) -> f64 {
    -above(-x)
}

impl Strat {
    pub fn value(&self, j: &J, n: usize, r: &mut StdRng) -> f64 {
        match self {
            Strat::Const(c) => *c,
            Strat::F(f) => (f.0)(j),
            Strat::Ties(k) => r.gen_range(0..*k) as f64,
            Strat::Zeroes => *[0.0, -0.0].choose(r).unwrap(),
            Strat::Inc => n as f64,
            Strat::Dec => -(n as f64),
            Strat::Extreme => *[1e300, -1e300, 0.0, 1e-300, -1e-300, 5e-324, 1e300, -1e300].choose(r).unwrap(),
            Strat::SizeMax => -(j.to_string().len() as f64),
            Strat::SizeMin => j.to_string().len() as f64,
            Strat::Near(t) => match r.gen_range(0..40) {
                0 => *t,
                1 => below(*t),
                2..=15 => above(*t),
                16..=20 => above(above(*t)),
                21..=26 => *t + (t.abs() * 10f64.powi(-r.gen_range(5..15))).max(f64::MIN_POSITIVE),
                27..=33 => *t + 10f64.powi(-r.gen_range(3..16)).max(t.abs() * 1e-15),
                _ => *t + r.gen_range(0.1..10.0) + t.abs() * 0.01,
            },
            Strat::MagMax => {
                let mut v = vec![];
                num_leaves(j, &mut v);
                clampf(-v.iter().map(|x| x.abs()).fold(0.0, f64::max))
            }
            Strat::Rand => r.gen_range(-1.0..1.0),
            Strat::RandExp => clampf(r.gen_range(-1.0..1.0) * 10f64.powi(r.gen_range(-300..300))),
            Strat::Hash(k) => (crate::model::sig_json(j) % (*k as u64)) as f64,
            Strat::Square => {
                let mut v = vec![];
                num_leaves(j, &mut v);
                clampf(v.iter().map(|x| x * x).sum())
            }
            Strat::Noisy => 1e9 + (crate::model::sig_json(j) % 50) as f64 + r.gen_range(-5.0..5.0),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AbortMode {
    /// returns Ok(None) as soon as the abort request arrives
    Honour,
    /// returns its value as soon as the abort request arrives
    HonourWithValue,
    /// returns an error as soon as the abort request arrives
    HonourWithError,
    /// never looks at it
    Ignore,
    /// notices it, but needs to be released before it returns a rejection
    Slow,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Order {
    Fifo,
    Lifo,
    Rand,
    /// prefer to starve the oldest evaluation as long as possible
    Starve,
    /// release several at the same time
    Burst,
    /// release everything in flight at the same time
    All,
    /// result available at the first poll
    Immediate,
}

pub const ORDERS: &[Order] = &[Order::Fifo, Order::Lifo, Order::Rand, Order::Starve, Order::Burst, Order::All, Order::Immediate];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Term {
    Never,
    /// at the quiescent point after k processed results
    Quiet(usize),
    /// together with the k-th release, before the controller has been polled
    WithRelease(usize),
    /// before the first poll
    BeforeStart,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub m: M,
    pub spec: Spec,
    pub sample: usize,
    pub conc: usize,
    pub budget: Option<usize>,
    pub target: Option<f64>,
    pub guess: Option<J>,
    pub strat: Strat,
    pub reject: f64,
    /// reject everything
    pub reject_all: bool,
    /// the n-th started evaluation(s) fail
    pub fail: Vec<usize>,
    pub nonfinite: Vec<(usize, u64)>,
    pub abort: Vec<AbortMode>,
    pub order: Order,
    pub term: Term,
    pub extra_terms: usize,
    pub chan_cap: usize,
    /// drain at most this many report items at a time, and only when the run is stalled
    pub lazy_drain: bool,
    /// stop (Terminate) after this many completed evaluations if nothing else ends the run
    pub backstop: usize,
    pub seed: u64,
    /// drop the report receiver after this many items
    pub hang_up: Option<usize>,
    /// Some(None): reject every evaluation; Some(Some(k)): all but the k-th
    pub accept_only: Option<Option<usize>>,
    /// sleep up to this many microseconds at random points
    pub jitter_us: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Val(f64),
    Reject,
    Fail(String),
    NonFinite(f64),
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub n: usize,
    pub id: usize,
    pub seed: u64,
    pub value: J,
    pub start: u64,
    /// the abort request was already in its channel when it started
    pub abort_pending: bool,
    pub abort_seen: Option<u64>,
    pub ret: Option<u64>,
    pub out: Option<Out>,
    pub dropped: Option<u64>,
    pub mode: AbortMode,
    pub released: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub at: u64,
    pub id: usize,
    pub seed: u64,
    pub value: J,
    pub obj: Option<f64>,
    pub source: Option<String>,
    pub params: Option<[f64; 4]>,
    pub csv: String,
    pub eval_s: f64,
}

#[derive(Clone, Debug)]
pub struct Quiet {
    pub at: u64,
    pub in_flight: Vec<usize>,
    pub ended: usize,
    pub items: usize,
    pub report_drained: bool,
}

#[derive(Clone, Debug)]
pub enum End {
    Ok { best: f64, value: J, completed: usize, rejected: usize, text: String },
    Err(String, String),
    Deadlock(String),
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub recs: Vec<Rec>,
    pub items: Vec<Item>,
    pub quiets: Vec<Quiet>,
    pub terms: Vec<u64>,
    /// a Terminate command sent while the run was quiescent (so nothing may start afterwards)
    pub quiet_terms: Vec<u64>,
    pub polls: u64,
    pub end: End,
    pub end_at: u64,
    pub max_in_flight: usize,
}

struct SlotS {
    released: bool,
    waker: Option<Waker>,
}

struct Shared {
    clock: u64,
    recs: Vec<Rec>,
    slots: Vec<SlotS>,
    rng: StdRng,
    in_flight: usize,
    max_in_flight: usize,
    wanted_abort: bool,
    volume: usize,
}

impl Shared {
    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
}

struct SimObj {
    cfg: Arc<Cfg>,
    sh: Arc<Mutex<Shared>>,
}

struct Guard {
    n: usize,
    sh: Arc<Mutex<Shared>>,
}

impl Drop for Guard {
    fn drop(&mut self) {
        let mut s = self.sh.lock().unwrap_or_else(|e| e.into_inner());
        let t = s.tick();
        s.in_flight -= 1;
        let r = &mut s.recs[self.n];
        if r.ret.is_none() {
            r.dropped = Some(t);
        }
    }
}

fn outcome(cfg: &Cfg, n: usize, value: &J, r: &mut StdRng) -> Out {
    // drawn in a fixed pattern, from a stream of its own, so that it does not depend on the schedule
    let v = cfg.strat.value(value, n, r);
    let rej = r.gen_bool(cfg.reject);
    if cfg.fail.contains(&n) {
        return Out::Fail(format!("unique failure {n} of {}", cfg.seed));
    }
    if let Some(x) = cfg.nonfinite.iter().find(|x| x.0 == n) {
        return Out::NonFinite(f64::from_bits(x.1));
    }
    if rej || cfg.reject_all || cfg.accept_only.map_or(false, |k| k != Some(n)) {
        Out::Reject
    } else {
        Out::Val(v)
    }
}

#[async_trait::async_trait]
impl AsyncObjectiveFunction for SimObj {
    async fn evaluate(&self, value: J, mut abort: async_broadcast::Receiver<()>, seed: u64, individual_id: usize) -> Result<Option<f64>, Error> {
        let pending = {
            let mut c = abort.clone();
            matches!(c.try_recv(), Ok(()))
        };
        let cfg = &self.cfg;
        let (n, mode, out) = {
            let mut s = self.sh.lock().unwrap();
            let n = s.recs.len();
            s.volume += node_count(&value);
            let mut r = StdRng::seed_from_u64(cfg.seed ^ (n as u64).wrapping_mul(0x9E3779B97F4A7C15));
            let out = outcome(cfg, n, &value, &mut r);
            let mode = *cfg.abort.choose(&mut r).unwrap();
            let at = s.tick();
            s.recs.push(Rec {
                n, id: individual_id, seed, value, start: at, abort_pending: pending, abort_seen: None, ret: None, out: None,
                dropped: None, mode, released: None,
            });
            let imm = cfg.order == Order::Immediate;
            if imm {
                s.recs[n].released = Some(at);
            }
            s.slots.push(SlotS { released: imm, waker: None });
            s.in_flight += 1;
            s.max_in_flight = s.max_in_flight.max(s.in_flight);
            (n, mode, out)
        };
        let _guard = Guard { n, sh: self.sh.clone() };
        let mut told = false;
        let res: Out = {
            let recv = abort.recv();
            futures::pin_mut!(recv);
            std::future::poll_fn(|cx: &mut Context| {
                if !told {
                    if recv.as_mut().poll(cx).is_ready() {
                        told = true;
                        let mut s = self.sh.lock().unwrap();
                        let t = s.tick();
                        s.recs[n].abort_seen = Some(t);
                    }
                }
                let mut s = self.sh.lock().unwrap();
                if told {
                    match mode {
                        AbortMode::Honour => return Poll::Ready(Out::Reject),
                        AbortMode::HonourWithValue => return Poll::Ready(out.clone()),
                        AbortMode::HonourWithError => return Poll::Ready(Out::Fail(format!("aborted {n}"))),
                        _ => {}
                    }
                }
                if s.slots[n].released {
                    return Poll::Ready(if told && mode == AbortMode::Slow { Out::Reject } else { out.clone() });
                }
                s.slots[n].waker = Some(cx.waker().clone());
                Poll::Pending
            })
            .await
        };
        {
            let mut s = self.sh.lock().unwrap();
            let t = s.tick();
            s.recs[n].ret = Some(t);
            s.recs[n].out = Some(res.clone());
        }
        match res {
            Out::Val(v) => Ok(Some(v)),
            Out::Reject => Ok(None),
            Out::Fail(m) => Err(Error::Io(std::io::Error::new(std::io::ErrorKind::Other, m))),
            Out::NonFinite(v) => Ok(Some(v)),
        }
    }
}

struct Flag(AtomicBool, AtomicU64);
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, SeqCst);
        a.1.fetch_add(1, SeqCst);
    }
}

pub fn err_text(e: &Error) -> (String, String) {
    let dbg = format!("{e:?}");
    let variant: String = dbg.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    (variant, e.to_string())
}

pub fn run(cfg: &Cfg) -> Trace {
    let cfg = Arc::new(cfg.clone());
    let sh = Arc::new(Mutex::new(Shared {
        clock: 0,
        recs: vec![],
        slots: vec![],
        rng: StdRng::seed_from_u64(cfg.seed),
        in_flight: 0,
        max_in_flight: 0,
        wanted_abort: false,
        volume: 0,
    }));
    let obj = SimObj { cfg: cfg.clone(), sh: sh.clone() };
    let (mut cmd_tx, cmd_rx) = mpsc::channel::<Command>(64);
    let (item_tx, item_rx) = mpsc::channel(cfg.chan_cap);
    let mut item_rx = Some(item_rx);
    let ac = AlgoConfig { individual_sample_size: cfg.sample, num_concurrent: cfg.conc };
    let fut = cambrian::async_launch::launch(cfg.spec.clone(), obj, ac, cmd_rx, item_tx, cfg.budget, cfg.target, cfg.guess.clone());
    let mut fut: Pin<Box<dyn Future<Output = _>>> = Box::pin(fut);

    let flag = Arc::new(Flag(AtomicBool::new(true), AtomicU64::new(0)));
    let wk = waker(flag.clone());
    let mut cx = Context::from_waker(&wk);

    let mut tr = Trace {
        recs: vec![], items: vec![], quiets: vec![], terms: vec![], quiet_terms: vec![], polls: 0,
        end: End::Deadlock(String::new()), end_at: 0, max_in_flight: 0,
    };
    let mut sched = StdRng::seed_from_u64(cfg.seed ^ 0x5bd1e995);
    let mut drain_rng = StdRng::seed_from_u64(cfg.seed ^ 0x77);
    let mut jrng = StdRng::seed_from_u64(cfg.seed ^ 0x99 ^ cfg.jitter_us);
    let mut releases = 0usize;
    let mut term_done = false;
    let send_term = |tr: &mut Trace, quiet: bool, tx: &mut mpsc::Sender<Command>| {
        let mut s = sh.lock().unwrap();
        let t = s.tick();
        s.wanted_abort = true;
        drop(s);
        tr.terms.push(t);
        if quiet {
            tr.quiet_terms.push(t);
        }
        for _ in 0..1 + cfg.extra_terms {
            let _ = tx.try_send(Command::Terminate);
        }
    };
    if cfg.term == Term::BeforeStart {
        send_term(&mut tr, false, &mut cmd_tx);
        term_done = true;
    }
    macro_rules! drain {
        ($max:expr) => {{
            let mut got = 0usize;
            let mut hang = false;
            if let Some(rx) = item_rx.as_mut() {
                while got < $max {
                    match rx.try_recv() {
                        Ok(i) => {
                            got += 1;
                            let at = sh.lock().unwrap().tick();
                            tr.items.push(Item {
                                at,
                                id: i.individual_id,
                                seed: i.seed,
                                obj: i.obj_func_val,
                                source: i.meta_params_used.as_ref().map(|m| format!("{:?}", m.source)),
                                params: i.meta_params_used.as_ref().map(|m| {
                                    [m.crossover_params.crossover_prob, m.crossover_params.selection_pressure, m.mutation_params.mutation_prob, m.mutation_params.mutation_scale]
                                }),
                                csv: i.to_csv_row(),
                                eval_s: i.eval_time.as_secs_f64(),
                                value: i.input_val,
                            });
                            if cfg.hang_up.map_or(false, |h| tr.items.len() >= h) {
                                hang = true;
                                break;
                            }
                        }
                        _ => break,
                    }
                }
            }
            if hang {
                drop(item_rx.take());
            }
            got
        }};
    }
    loop {
        if cfg.jitter_us > 0 && jrng.gen_bool(0.05) {
            std::thread::sleep(std::time::Duration::from_micros(jrng.gen_range(0..=cfg.jitter_us)));
        }
        if flag.0.swap(false, SeqCst) {
            tr.polls += 1;
            if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
                let at = sh.lock().unwrap().tick();
                tr.end_at = at;
                drop(fut);
                drain!(usize::MAX);
                tr.end = match r {
                    Ok(rep) => End::Ok {
                        text: rep.to_string(),
                        best: rep.best_seen.obj_func_val,
                        value: rep.best_seen.value,
                        completed: rep.num_obj_func_eval_completed,
                        rejected: rep.num_obj_func_eval_rejected,
                    },
                    Err(e) => {
                        let (a, b) = err_text(&e);
                        End::Err(a, b)
                    }
                };
                break;
            }
            if tr.polls > 50_000_000 {
                tr.end = End::Deadlock("livelock: 50M polls".into());
                break;
            }
            continue;
        }
        // stalled: first let the report flow
        let k = if cfg.lazy_drain { drain_rng.gen_range(1..3) } else { usize::MAX };
        if drain!(k) > 0 {
            // a run whose evaluations never wait has no quiescent points
            if cfg.order == Order::Immediate && !term_done {
                let (n, vol) = {
                    let s = sh.lock().unwrap();
                    (s.recs.len(), s.volume)
                };
                if n >= cfg.backstop || vol > MAX_VOLUME || matches!(cfg.term, Term::Quiet(k) | Term::WithRelease(k) if n >= k) {
                    term_done = true;
                    send_term(&mut tr, false, &mut cmd_tx);
                }
            }
            continue;
        }
        if flag.0.load(SeqCst) {
            continue;
        }
        // quiescent
        let (in_flight, ended, completed, volume) = {
            let mut s = sh.lock().unwrap();
            let at = s.tick();
            let f: Vec<usize> = s.recs.iter().filter(|r| r.ret.is_none() && r.dropped.is_none()).map(|r| r.n).collect();
            let ended = s.recs.len() - f.len();
            tr.quiets.push(Quiet { at, in_flight: f.clone(), ended, items: tr.items.len(), report_drained: true });
            (f, ended, ended, s.volume)
        };
        let want_term = !term_done
            && (matches!(cfg.term, Term::Quiet(k) if completed >= k) || completed >= cfg.backstop || volume > MAX_VOLUME);
        if want_term {
            term_done = true;
            send_term(&mut tr, true, &mut cmd_tx);
            if !flag.0.load(SeqCst) {
                // the command must at least wake the run
                tr.end = End::Deadlock("Terminate command did not wake the run".into());
                break;
            }
            continue;
        }
        let cands: Vec<usize> = {
            let s = sh.lock().unwrap();
            in_flight.iter().copied().filter(|n| !s.slots[*n].released).collect()
        };
        if cands.is_empty() {
            tr.end = End::Deadlock(format!("stalled with {} in flight (none waiting for release), {} ended", in_flight.len(), ended));
            break;
        }
        let pick: Vec<usize> = match cfg.order {
            Order::Fifo | Order::Immediate => vec![cands[0]],
            Order::Lifo => vec![*cands.last().unwrap()],
            Order::Rand => vec![*cands.choose(&mut sched).unwrap()],
            Order::Starve => {
                if cands.len() > 1 && !sched.gen_bool(0.01) {
                    vec![cands[1 + sched.gen_range(0..cands.len() - 1)]]
                } else {
                    vec![cands[0]]
                }
            }
            Order::Burst => {
                let mut c = cands.clone();
                c.shuffle(&mut sched);
                c.truncate(sched.gen_range(1..=c.len()));
                c
            }
            Order::All => {
                let mut c = cands.clone();
                c.shuffle(&mut sched);
                c
            }
        };
        releases += pick.len();
        if !term_done {
            if let Term::WithRelease(k) = cfg.term {
                if releases >= k {
                    term_done = true;
                    if sched.gen() {
                        send_term(&mut tr, false, &mut cmd_tx);
                        release(&sh, &pick);
                    } else {
                        release(&sh, &pick);
                        send_term(&mut tr, false, &mut cmd_tx);
                    }
                    continue;
                }
            }
        }
        release(&sh, &pick);
        if !flag.0.load(SeqCst) {
            tr.end = End::Deadlock("releasing an evaluation did not wake the run".into());
            break;
        }
    }
    let mut s = sh.lock().unwrap();
    tr.recs = std::mem::take(&mut s.recs);
    tr.max_in_flight = s.max_in_flight;
    let _ = s.rng.gen::<u8>();
    tr
}

fn release(sh: &Arc<Mutex<Shared>>, pick: &[usize]) {
    for n in pick {
        let w = {
            let mut s = sh.lock().unwrap();
            let t = s.tick();
            s.recs[*n].released = Some(t);
            s.slots[*n].released = true;
            s.slots[*n].waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

impl Trace {
    pub fn failures(&self) -> Vec<&Rec> {
        let mut v: Vec<&Rec> = self.recs.iter().filter(|r| matches!(r.out, Some(Out::Fail(_)) | Some(Out::NonFinite(_)))).collect();
        v.sort_by_key(|r| r.ret);
        v
    }
    pub fn values(&self) -> Vec<(&Rec, f64)> {
        let mut v: Vec<(&Rec, f64)> = self
            .recs
            .iter()
            .filter_map(|r| if let Some(Out::Val(x)) = r.out { Some((r, x)) } else { None })
            .collect();
        v.sort_by_key(|r| r.0.ret);
        v
    }
    pub fn rejected(&self) -> usize {
        self.recs.iter().filter(|r| r.out == Some(Out::Reject)).count()
    }
    pub fn summary(&self) -> J {
        serde_json::json!({
            "evaluations": self.recs.len(), "values": self.values().len(), "rejected": self.rejected(),
            "failures": self.failures().len(), "dropped": self.recs.iter().filter(|r| r.dropped.is_some()).count(),
            "aborts_seen": self.recs.iter().filter(|r| r.abort_seen.is_some()).count(), "max_in_flight": self.max_in_flight,
            "quiescent_points": self.quiets.len(), "items": self.items.len(), "polls": self.polls, "end": format!("{:?}", self.end).chars().take(300).collect::<String>(),
        })
    }
    /// hash of the order of starts, aborts and returns (distinct interleavings)
    pub fn interleaving(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut ev: Vec<(u64, u8, usize)> = vec![];
        for r in &self.recs {
            ev.push((r.start, 0, r.n));
            if let Some(t) = r.abort_seen {
                ev.push((t, 1, r.n));
            }
            if let Some(t) = r.ret {
                ev.push((t, 2, r.n));
            }
            if let Some(t) = r.dropped {
                ev.push((t, 3, r.n));
            }
        }
        for t in &self.terms {
            ev.push((*t, 4, 0));
        }
        ev.sort();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for e in ev {
            (e.1, e.2).hash(&mut h);
        }
        h.finish()
    }
}
