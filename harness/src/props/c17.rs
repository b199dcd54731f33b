//! The search is directed: benchmarks with known optimum, selection frequencies, liveness of the operators.
use super::*;
use crate::model::*;
use crate::ops::{self, Ops};
use crate::sim::{AbortMode, ObjFn, Order, Strat, Term};
use crate::{ensure, viol};
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::value::{Node as N, Value};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::Value as J;
use std::sync::Arc;

// ------------------------------------------------------------------ benchmarks

pub struct Problem {
    m: M,
    f: ObjFn,
    /// evaluations
    budget: usize,
    /// value of the initial parameter set above the optimum
    init_gap: f64,
    optimum: f64,
}

type Make = fn(&mut StdRng) -> Problem;

pub struct Family {
    pub name: &'static str,
    pub make: Make,
    /// the gap to the optimum has to shrink to this fraction of the initial gap (0: reach it) ...
    /// ... in every run
    pub each: f64,
    /// ... in the median of the runs of a battery
    pub median: f64,
    /// median number of evaluations until the best value of the run (discrete problems: the optimum)
    pub evals: usize,
    pub runs: usize,
}

fn objf(f: impl Fn(&J) -> f64 + Send + Sync + 'static) -> ObjFn {
    ObjFn(Arc::new(f))
}

fn problem(m: M, budget: usize, optimum: f64, f: impl Fn(&J) -> f64 + Send + Sync + 'static) -> Problem {
    let init_gap = f(&m.init_json()) - optimum;
    Problem { m, f: objf(f), budget, init_gap, optimum }
}

/// sum of squares around a random optimum `dist` scales away from the initial point
fn sphere(r: &mut StdRng, n: usize, scale: fn(&mut StdRng) -> f64, dist: f64, budget: usize) -> Problem {
    let mut ms = vec![];
    let mut opt = vec![];
    for i in 0..n {
        let s = scale(r);
        let init = s * r.gen_range(-10.0..10.0);
        let o = init + s * dist * if r.gen() { 1.0 } else { -1.0 } * r.gen_range(0.8..1.2);
        ms.push((format!("x{i}"), M::Real { init, scale: s, min: None, max: None }));
        opt.push((format!("x{i}"), o, s));
    }
    problem(M::Sub(ms), budget, 0.0, move |j| opt.iter().map(|(k, o, s)| ((j[k].as_f64().unwrap() - o) / s).powi(2)).sum())
}

fn sphere1(r: &mut StdRng) -> Problem {
    sphere(r, 1, |_| 1.0, 10.0, 400)
}
fn sphere5(r: &mut StdRng) -> Problem {
    sphere(r, 5, |_| 1.0, 10.0, 1500)
}
fn sphere12(r: &mut StdRng) -> Problem {
    sphere(r, 12, |_| 1.0, 10.0, 3000)
}
fn scales(r: &mut StdRng) -> Problem {
    sphere(r, 4, |r| 10f64.powf(r.gen_range(-6.0..6.0)), 10.0, 1500)
}
/// the declared scale is far too big or too small: the adaptive scale has to make up for it
fn misscaled(r: &mut StdRng) -> Problem {
    let d = if r.gen() { 300.0 } else { 0.003 };
    sphere(r, 3, |_| 1.0, d, 3000)
}
fn array_sphere(r: &mut StdRng) -> Problem {
    let o: f64 = r.gen_range(5.0..10.0);
    problem(M::Arr(Box::new(M::Real { init: 0.0, scale: 1.0, min: None, max: None }), 6), 2000, 0.0, move |j| {
        j.as_array().unwrap().iter().enumerate().map(|(i, x)| (x.as_f64().unwrap() - o - i as f64).powi(2)).sum()
    })
}
fn bound(r: &mut StdRng) -> Problem {
    // optimum on the bound of every coordinate
    let mut ms = vec![];
    let mut dirs = vec![];
    let mut opt = 0.0;
    for i in 0..3 {
        let w = r.gen_range(5.0..20.0);
        let a = r.gen_range(-20.0..20.0);
        let up = r.gen::<bool>();
        ms.push((format!("x{i}"), M::Real { init: a + w * 0.5, scale: 1.0, min: Some(a), max: Some(a + w) }));
        let d = if up { -1.0 } else { 1.0 };
        dirs.push((format!("x{i}"), d));
        opt += d * if up { a + w } else { a };
    }
    problem(M::Sub(ms), 2000, opt, move |j| dirs.iter().map(|(k, d)| d * j[k].as_f64().unwrap()).sum())
}
fn int_grid(r: &mut StdRng) -> Problem {
    let mut ms = vec![];
    let mut opt = vec![];
    for i in 0..4 {
        let o: i64 = r.gen_range(-40..40);
        ms.push((format!("x{i}"), M::Int { init: 0, scale: 3.0, min: Some(-50), max: Some(50) }));
        opt.push((format!("x{i}"), o));
    }
    problem(M::Sub(ms), 12000, 0.0, move |j| opt.iter().map(|(k, o)| (j[k].as_i64().unwrap() - o).unsigned_abs() as f64).sum())
}
fn onemax(r: &mut StdRng) -> Problem {
    let want: Vec<bool> = (0..r.gen_range(20..28)).map(|_| r.gen()).collect();
    let m = M::Sub(want.iter().enumerate().map(|(i, w)| (format!("b{i}"), M::Bool { init: !w })).collect());
    problem(m, 8000, 0.0, move |j| want.iter().enumerate().filter(|(i, w)| j[format!("b{i}")].as_bool() != Some(**w)).count() as f64)
}
fn map_size(r: &mut StdRng) -> Problem {
    let (a, b): (usize, usize) = if r.gen() { (0, r.gen_range(5..12)) } else { (r.gen_range(8..12), r.gen_range(0..3)) };
    let m = M::Map { vt: Box::new(M::Bool { init: true }), init: a, min: None, max: None };
    problem(m, 2000, 0.0, move |j| (j.as_object().unwrap().len() as f64 - b as f64).abs())
}
fn map_large(r: &mut StdRng) -> Problem {
    let (a, b): (usize, usize) = if r.gen() { (r.gen_range(0..5), r.gen_range(30..60)) } else { (r.gen_range(50..60), r.gen_range(0..10)) };
    let m = M::Map { vt: Box::new(M::Bool { init: true }), init: a, min: None, max: if r.gen() { None } else { Some(70) } };
    problem(m, 6000, 0.0, move |j| (j.as_object().unwrap().len() as f64 - b as f64).abs())
}
fn onemax_array(r: &mut StdRng) -> Problem {
    let want: Vec<bool> = (0..r.gen_range(36..50)).map(|_| r.gen()).collect();
    let m = M::Arr(Box::new(M::Bool { init: false }), want.len());
    problem(m, 10000, 0.0, move |j| want.iter().zip(j.as_array().unwrap()).filter(|(w, x)| x.as_bool() != Some(**w)).count() as f64)
}
fn sphere_array24(r: &mut StdRng) -> Problem {
    let o: Vec<f64> = (0..24).map(|_| r.gen_range(-10.0..10.0)).collect();
    let m = M::Arr(Box::new(M::Real { init: 0.0, scale: 1.0, min: None, max: None }), 24);
    problem(m, 6000, 0.0, move |j| j.as_array().unwrap().iter().zip(&o).map(|(x, o)| (x.as_f64().unwrap() - o).powi(2)).sum())
}
fn map_content(r: &mut StdRng) -> Problem {
    let n = r.gen_range(3..6usize);
    let o: i64 = r.gen_range(3..8);
    let m = M::Map { vt: Box::new(M::Int { init: 0, scale: 2.0, min: Some(0), max: Some(10) }), init: 1, min: None, max: Some(10) };
    problem(m, 12000, 0.0, move |j| {
        let v: Vec<i64> = j.as_object().unwrap().values().map(|x| x.as_i64().unwrap()).collect();
        5.0 * (v.len() as f64 - n as f64).abs() + v.iter().map(|x| (x - o).abs() as f64).sum::<f64>()
    })
}
fn choices(r: &mut StdRng) -> Problem {
    let names = ["a", "b", "c", "d"];
    let evs: Vec<String> = (0..6).map(|i| format!("v{i}")).collect();
    let good = names[r.gen_range(1..4)];
    let o: i64 = r.gen_range(3..9);
    let ge = r.gen_range(1..6usize);
    let m = M::Sub(vec![
        ("v".into(), M::Var { opts: names.iter().map(|n| (n.to_string(), M::Int { init: 0, scale: 2.0, min: Some(0), max: Some(10) })).collect(), init: "a".into() }),
        ("e".into(), M::Enum { values: evs.clone(), init: "v0".into() }),
        ("o".into(), M::Opt { vt: Box::new(M::Enum { values: evs.clone(), init: "v0".into() }), present: false }),
    ]);
    problem(m, 16000, 0.0, move |j| {
        let (k, x) = j["v"].as_object().unwrap().iter().next().unwrap();
        let mut f = if k == good { (x.as_i64().unwrap() - o).abs() as f64 } else { 12.0 };
        f += if j["e"] == evs[ge] { 0.0 } else { 3.0 };
        f += if j["o"].is_null() { 6.0 } else if j["o"] == evs[ge] { 0.0 } else { 3.0 };
        f
    })
}
/// nested structure: a map of variants with reals in them
fn nested(r: &mut StdRng) -> Problem {
    let o: f64 = r.gen_range(3.0..9.0);
    let n = r.gen_range(2..5usize);
    let opt = |x: f64| M::Sub(vec![("p".into(), M::Real { init: x, scale: 1.0, min: Some(-10.0), max: Some(10.0) }), ("q".into(), M::Bool { init: false })]);
    let m = M::Map { vt: Box::new(M::Var { opts: vec![("a".into(), opt(0.0)), ("b".into(), opt(-5.0))], init: "a".into() }), init: 0, min: None, max: Some(8) };
    problem(m, 3000, 0.0, move |j| {
        let v = j.as_object().unwrap();
        let mut f = 30.0 * (v.len() as f64 - n as f64).abs();
        for e in v.values() {
            let (k, s) = e.as_object().unwrap().iter().next().unwrap();
            f += if k == "b" { 0.0 } else { 5.0 };
            f += (s["p"].as_f64().unwrap() - o).abs() + if s["q"] == true { 0.0 } else { 2.0 };
        }
        f
    })
}

// thresholds: calibrated on 25 random number streams (thousands of runs), then widened by at least a factor of
// 8 (gaps) or 3 (evaluations), so that another random number stream does not matter
const fn real(name: &'static str, make: Make, each: f64, median: f64, runs: usize) -> Family {
    Family { name, make, each, median, evals: usize::MAX, runs }
}
const fn discrete(name: &'static str, make: Make, evals: usize) -> Family {
    Family { name, make, each: 0.0, median: 0.0, evals, runs: 41 }
}
pub const FAMILIES: &[Family] = &[
    real("sphere1", sphere1, 0.05, 1e-4, 41),
    real("sphere5", sphere5, 0.05, 1e-4, 41),
    real("sphere12", sphere12, 0.05, 1e-3, 21),
    real("scales", scales, 0.05, 1e-4, 41),
    real("misscaled", misscaled, 1.0, 1e-3, 41),
    real("array_sphere", array_sphere, 0.05, 1e-4, 41),
    real("nested", nested, 0.6, 0.1, 41),
    discrete("bound", bound, 300),
    discrete("int_grid", int_grid, 1200),
    Family { name: "onemax", make: onemax, each: 0.6, median: 0.0, evals: 1800, runs: 41 },
    discrete("map_size", map_size, 250),
    discrete("map_large", map_large, 1000),
    Family { name: "onemax_array", make: onemax_array, each: 0.6, median: 0.0, evals: 2600, runs: 41 },
    real("sphere_array24", sphere_array24, 0.1, 1e-2, 21),
    discrete("map_content", map_content, 1400),
    discrete("choices", choices, 1300),
];

fn bench_cfg(p: &Problem, r: &mut StdRng, conc: usize) -> Cfg {
    Cfg {
        spec: cambrian::spec::Spec(p.m.to_spec()), m: p.m.clone(), sample: 1, conc, budget: Some(p.budget), target: Some(p.optimum), guess: None,
        strat: Strat::F(p.f.clone()), reject: 0.0, reject_all: false, fail: vec![], nonfinite: vec![], abort: vec![AbortMode::Honour],
        order: Order::Fifo, term: Term::Never, extra_terms: 0, chan_cap: 256, lazy_drain: false, backstop: usize::MAX, seed: r.gen(),
        hang_up: None, accept_only: None, jitter_us: 0,
    }
}

/// (final gap / initial gap, evaluation at which the best was found)
fn solve(c: &mut Case, fam: &Family) -> R<(f64, usize)> {
    let p = (fam.make)(&mut c.rng);
    let conc = *[1usize, 1, 4, 10].choose(&mut c.rng).unwrap();
    let cfg = bench_cfg(&p, &mut c.rng, conc);
    c.note = format!("benchmark {} (concurrency {conc})", fam.name);
    let tr = sim::run(&cfg);
    c.count("evaluations_observed", tr.recs.len() as u64);
    c.distinct(tr.recs.last().map(|r| sig_json(&r.value)));
    let sim::End::Ok { best, .. } = &tr.end else { viol!("benchmark {}: the run ends with {:?}", fam.name, tr.end) };
    let seen = tr.values().iter().position(|v| v.1 <= *best).unwrap_or(0);
    Ok(((best - p.optimum).max(0.0) / p.init_gap, seen))
}

fn bench(c: &mut Case) -> R {
    let fam = &FAMILIES[c.idx as usize % FAMILIES.len()];
    let mut rs = vec![];
    let mut evs = vec![];
    for _ in 0..fam.runs {
        let (x, seen) = solve(c, fam)?;
        evs.push(seen);
        c.count("benchmark_runs", 1);
        c.max(&format!("evaluations_to_best_{}", fam.name), seen as u64);
        rs.push(x);
    }
    let mut s = rs.clone();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    evs.sort();
    let ev_med = evs[evs.len() / 2];
    let (med, worst) = (s[s.len() / 2], s[s.len() - 1]);
    if std::env::var_os("CVERIF_CALIBRATE").is_some() {
        let solved = s.iter().filter(|x| **x <= 1e-12).count();
        eprintln!("{:14} median {med:9.2e} p90 {:9.2e} worst {worst:9.2e} solved {solved}/{} evals median {ev_med} max {}", fam.name, s[s.len() * 9 / 10], s.len(), evs[evs.len() - 1]);
        return Ok(());
    }
    ensure!(worst <= fam.each + 1e-12, "benchmark {}: a run leaves {worst:e} of the initial gap to the optimum, stated factor {:e}", fam.name, fam.each);
    ensure!(med <= fam.median + 1e-12, "benchmark {}: the median of {} runs leaves {med:e} of the initial gap to the optimum, stated factor {:e}", fam.name, s.len(), fam.median);
    ensure!(ev_med <= fam.evals, "benchmark {}: the median run needs {ev_med} evaluations to reach the optimum, stated budget {}", fam.name, fam.evals);
    c.sample(|| serde_json::json!({"benchmark": fam.name, "median_gap": med, "worst_gap": worst, "median_evaluations_to_best": ev_med}));
    Ok(())
}

// ------------------------------------------------------------------ selection

/// what is put around the parameter under test: every parent agrees on the wrapping
#[derive(Clone, Copy, Debug, PartialEq)]
enum Wrap {
    Sub,
    Arr,
    Map,
    Var,
    Opt,
}

fn wraps(r: &mut StdRng, max: usize) -> Vec<Wrap> {
    let n = r.gen_range(0..=max);
    (0..n).map(|_| *[Wrap::Sub, Wrap::Arr, Wrap::Map, Wrap::Var, Wrap::Opt].choose(r).unwrap()).collect()
}

fn other() -> M {
    M::Bool { init: false }
}

fn wrap_m(ws: &[Wrap], core: M) -> M {
    ws.iter().rev().fold(core, |m, w| match w {
        Wrap::Sub => M::Sub(vec![("o".into(), other()), ("w".into(), m)]),
        Wrap::Arr => M::Arr(Box::new(m), 2),
        Wrap::Map => M::Map { vt: Box::new(m), init: 1, min: Some(1), max: None },
        Wrap::Var => M::Var { opts: vec![("n".into(), other()), ("w".into(), m)], init: "w".into() },
        Wrap::Opt => M::Opt { vt: Box::new(m), present: true },
    })
}

/// `fill`: content of the second array element, the same in all parents
fn wrap_n(ws: &[Wrap], core: &N, fill: &N) -> N {
    ws.iter().enumerate().rev().fold(core.clone(), |n, (i, w)| match w {
        Wrap::Sub => N::Sub([("o".to_string(), Box::new(N::Bool(false))), ("w".to_string(), Box::new(n))].into_iter().collect()),
        Wrap::Arr => {
            let f = wrap_n(&ws[i + 1..], fill, fill);
            N::Array(vec![Box::new(n), Box::new(f)])
        }
        Wrap::Map => N::AnonMap([(3usize, Box::new(n))].into_iter().collect()),
        Wrap::Var => N::Variant("w".into(), Box::new(n)),
        Wrap::Opt => N::Optional(Some(Box::new(n))),
    })
}

fn unwrap_n<'a>(ws: &[Wrap], n: &'a N) -> Option<&'a N> {
    let Some(w) = ws.first() else { return Some(n) };
    let x: &N = match (w, n) {
        (Wrap::Sub, N::Sub(m)) => m.get("w")?,
        (Wrap::Arr, N::Array(v)) => v.first()?,
        (Wrap::Map, N::AnonMap(m)) => m.get(&3)?,
        (Wrap::Var, N::Variant(k, x)) if k == "w" => x,
        (Wrap::Opt, N::Optional(Some(x))) => x,
        _ => return None,
    };
    unwrap_n(&ws[1..], x)
}

/// `n` parents that differ in exactly one choice, and how to tell which one was followed
type Picked = Box<dyn Fn(&N) -> Option<usize>>;
fn choice_parents(kind: usize, n: usize) -> (M, Vec<N>, Picked) {
    let names: Vec<String> = (0..n.max(2)).map(|i| format!("v{i}")).collect();
    match kind {
        0 => (
            M::Int { init: 0, scale: 1.0, min: None, max: None },
            (0..n).map(|i| N::Int(i as i64)).collect(),
            Box::new(|x| if let N::Int(i) = x { Some(*i as usize) } else { None }),
        ),
        1 => (
            M::Real { init: 0.0, scale: 1.0, min: Some(-1.0), max: Some(100.0) },
            (0..n).map(|i| N::Real(i as f64)).collect(),
            Box::new(|x| if let N::Real(i) = x { Some(*i as usize) } else { None }),
        ),
        2 => (
            M::Enum { values: names.clone(), init: "v0".into() },
            (0..n).map(|i| N::Enum(format!("v{i}"))).collect(),
            Box::new(|x| if let N::Enum(i) = x { i[1..].parse().ok() } else { None }),
        ),
        // variant names
        3 => (
            M::Var { opts: names.iter().map(|k| (k.clone(), M::Const)).collect(), init: "v0".into() },
            (0..n).map(|i| N::Variant(format!("v{i}"), Box::new(N::Const))).collect(),
            Box::new(|x| if let N::Variant(i, _) = x { i[1..].parse().ok() } else { None }),
        ),
        // whole subtrees (only with crossover probability 0)
        _ => (
            M::Sub(vec![("a".into(), M::Int { init: 0, scale: 1.0, min: None, max: None }), ("b".into(), M::Int { init: 0, scale: 1.0, min: None, max: None })]),
            (0..n)
                .map(|i| N::Sub([("a".to_string(), Box::new(N::Int(i as i64))), ("b".to_string(), Box::new(N::Int(-(i as i64))))].into_iter().collect()))
                .collect(),
            Box::new(|x| {
                let N::Sub(m) = x else { return None };
                match (m.get("a").map(|x| &**x), m.get("b").map(|x| &**x)) {
                    (Some(N::Int(a)), Some(N::Int(b))) if *a == -b => Some(*a as usize),
                    _ => None,
                }
            }),
        ),
    }
}

const DRAWS: usize = 12000;

fn check_monotone(counts: &[u64], sp: f64, what: &str) -> R {
    for i in 0..counts.len() {
        for j in i + 1..counts.len() {
            let (a, b) = (counts[i] as f64, counts[j] as f64);
            ensure!(b - a <= 6.5 * (a + b + 1.0).sqrt(), "{what}: rank {j} is picked more often than rank {i} at selection pressure {sp}: {counts:?} of {DRAWS}");
        }
    }
    // "favours": with a clear pressure the first rank clearly beats the last
    if counts.len() > 1 && sp >= 0.5 {
        let (a, b) = (counts[0] as f64, counts[counts.len() - 1] as f64);
        ensure!(a - b >= 6.5 * (a + b).sqrt(), "{what}: rank 0 is not favoured at selection pressure {sp}: {counts:?} of {DRAWS}");
    }
    Ok(())
}

fn pressure(r: &mut StdRng) -> f64 {
    match r.gen_range(0..4) {
        0 => *[0.0, 0.05, 0.1, 0.5, 0.9, 1.0].choose(r).unwrap(),
        _ => r.gen::<f64>(),
    }
}

fn selection(c: &mut Case) -> R {
    let kind = c.rng.gen_range(0..5usize);
    let n = c.rng.gen_range(1..=10);
    let sp = pressure(&mut c.rng);
    let ws = wraps(&mut c.rng, if kind == 4 { 0 } else { 3 });
    // with probability 0 the outermost structure is taken whole; a leaf is always selected
    let cp = if kind == 4 || c.rng.gen_bool(0.2) { 0.0 } else { 1.0 };
    let (core, parents, which) = choice_parents(kind, n);
    let m = wrap_m(&ws, core.clone());
    let spec = cambrian::spec::Spec(m.to_spec());
    let fill = core.init_node();
    let ps: Vec<Value> = parents.iter().map(|p| Value(wrap_n(&ws, p, &fill))).collect();
    let refs: Vec<&Value> = ps.iter().collect();
    let p = CrossoverParams { crossover_prob: cp, selection_pressure: sp };
    let mut o = ops::new();
    let mut rng = StdRng::seed_from_u64(c.rng.gen());
    let what = format!("selection among {n} parents of {} inside {ws:?}, {p:?}", core.kind());
    c.note = what.clone();
    let mut counts = vec![0u64; n];
    for _ in 0..DRAWS {
        let x = o.crossover(&spec, &refs, &p, &mut rng);
        match unwrap_n(&ws, &x.0).and_then(|x| which(x)) {
            Some(i) if i < n => counts[i] += 1,
            _ => viol!("{what}: offspring {:?} takes its value from no parent", x.0),
        }
    }
    c.count("selections_observed", DRAWS as u64);
    c.count(&format!("kind_{}", core.kind()), 1);
    c.distinct((kind, n, sp.to_bits(), format!("{ws:?}"), cp.to_bits()));
    c.sample(|| serde_json::json!({"what": what, "counts": counts}));
    check_monotone(&counts, sp, &what)
}

/// which map keys survive, and whether an optional is present: the parent that has it at rank i
fn membership(c: &mut Case) -> R {
    let n = c.rng.gen_range(2..=8usize);
    let sp = pressure(&mut c.rng);
    let ws = wraps(&mut c.rng, 2);
    let p = CrossoverParams { crossover_prob: 1.0, selection_pressure: sp };
    let mut o = ops::new();
    let mut rng = StdRng::seed_from_u64(c.rng.gen());
    let mut counts = vec![0u64; n];
    let what;
    if c.rng.gen() {
        let core = M::Map { vt: Box::new(M::Bool { init: true }), init: 1, min: if c.rng.gen() { Some(0) } else { None }, max: None };
        what = format!("keys of a map inside {ws:?} with one parent per key, {n} parents, {p:?}");
        let m = wrap_m(&ws, core.clone());
        let spec = cambrian::spec::Spec(m.to_spec());
        let fill = core.init_node();
        let ps: Vec<Value> =
            (0..n).map(|i| Value(wrap_n(&ws, &N::AnonMap([(10 + i, Box::new(N::Bool(true)))].into_iter().collect()), &fill))).collect();
        let refs: Vec<&Value> = ps.iter().collect();
        for _ in 0..DRAWS {
            let x = o.crossover(&spec, &refs, &p, &mut rng);
            let Some(N::AnonMap(k)) = unwrap_n(&ws, &x.0) else { viol!("{what}: {:?}", x.0) };
            for k in k.keys() {
                ensure!((10..10 + n).contains(k), "{what}: key {k}");
                counts[k - 10] += 1;
            }
        }
    } else {
        let inverted = c.rng.gen_bool(0.5);
        let core = M::Opt { vt: Box::new(M::Bool { init: true }), present: false };
        what = format!("an optional inside {ws:?} that only the parent of rank i {}, {n} parents, {p:?}", if inverted { "lacks" } else { "has" });
        let m = wrap_m(&ws, core.clone());
        let spec = cambrian::spec::Spec(m.to_spec());
        let fill = core.init_node();
        for i in 0..n {
            let ps: Vec<Value> = (0..n)
                .map(|j| Value(wrap_n(&ws, &N::Optional(if (i == j) != inverted { Some(Box::new(N::Bool(true))) } else { None }), &fill)))
                .collect();
            let refs: Vec<&Value> = ps.iter().collect();
            for _ in 0..DRAWS {
                let x = o.crossover(&spec, &refs, &p, &mut rng);
                let Some(N::Optional(k)) = unwrap_n(&ws, &x.0) else { viol!("{what}: {:?}", x.0) };
                counts[i] += (k.is_some() != inverted) as u64;
            }
        }
    }
    c.note = what.clone();
    c.count("selections_observed", DRAWS as u64);
    c.distinct((what.clone(), sp.to_bits()));
    c.sample(|| serde_json::json!({"what": what, "counts": counts}));
    check_monotone(&counts, sp, &what)
}

// ------------------------------------------------------------------ liveness

struct Live {
    attempts: u32,
    changed: u32,
    kind: &'static str,
    /// has to change in every attempt with probability 1
    every: bool,
}

/// compares the same positions before and after a mutation
fn walk(m: &M, a: &N, b: &N, path: &mut String, out: &mut std::collections::BTreeMap<String, Live>) {
    let len = path.len();
    let mut see = |path: &str, kind: &'static str, every: bool, changed: bool| {
        let e = out.entry(path.to_string()).or_insert(Live { attempts: 0, changed: 0, kind, every });
        e.attempts += 1;
        e.changed += changed as u32;
    };
    match (m, a, b) {
        (M::Real { scale, min, max, .. }, N::Real(x), N::Real(y)) => {
            let pinned = matches!((min, max), (Some(a), Some(b)) if a >= b);
            if *scale >= 1.0 && *scale < 1e9 && x.abs() < 1e15 && !pinned {
                see(path, "real", false, x.to_bits() != y.to_bits());
            }
        }
        (M::Int { scale, min, max, .. }, N::Int(x), N::Int(y)) => {
            let pinned = matches!((min, max), (Some(a), Some(b)) if a >= b);
            if *scale >= 1.0 && *scale < 1e9 && x.unsigned_abs() < 1_000_000_000_000_000 && !pinned {
                see(path, "int", false, x != y);
            }
        }
        (M::Bool { .. }, N::Bool(x), N::Bool(y)) => see(path, "bool", true, x != y),
        (M::Enum { .. }, N::Enum(x), N::Enum(y)) => see(path, "enum", true, x != y),
        (M::Sub(ms), N::Sub(f), N::Sub(t)) => {
            for (k, mm) in ms {
                if let (Some(x), Some(y)) = (f.get(k), t.get(k)) {
                    path.push('.');
                    path.push_str(k);
                    walk(mm, x, y, path, out);
                    path.truncate(len);
                }
            }
        }
        (M::Arr(mm, _), N::Array(f), N::Array(t)) => {
            for (i, (x, y)) in f.iter().zip(t).enumerate() {
                path.push_str(&format!("[{i}]"));
                walk(mm, x, y, path, out);
                path.truncate(len);
            }
        }
        (M::Map { vt, min, max, .. }, N::AnonMap(f), N::AnonMap(t)) => {
            let pinned = f.len() == min.unwrap_or(0) && Some(f.len()) == *max;
            if !pinned {
                see(path, "map size", true, f.len() != t.len());
            }
            for (k, x) in f {
                if let Some(y) = t.get(k) {
                    path.push_str(&format!("#{k}"));
                    walk(vt, x, y, path, out);
                    path.truncate(len);
                }
            }
        }
        (M::Var { opts, .. }, N::Variant(k, x), N::Variant(l, y)) => {
            see(path, "variant", true, k != l);
            if k == l {
                path.push_str(&format!("<{k}>"));
                walk(&opts.iter().find(|o| o.0 == *k).unwrap().1, x, y, path, out);
                path.truncate(len);
            }
        }
        (M::Opt { vt, .. }, N::Optional(f), N::Optional(t)) => {
            see(path, "optional", true, f.is_some() != t.is_some());
            if let (Some(x), Some(y)) = (f, t) {
                path.push('?');
                walk(vt, x, y, path, out);
                path.truncate(len);
            }
        }
        _ => {}
    }
}

/// numbers far from zero, with scales that are not absorbed by the magnitude
fn far_numbers(r: &mut StdRng) -> M {
    M::Sub(
        (0..r.gen_range(1..6))
            .map(|k| {
                let x = 10f64.powf(r.gen_range(3.0..14.9)) * if r.gen() { 1.0 } else { -1.0 };
                let scale = 10f64.powf(r.gen_range(0.0..8.5));
                // never on a bound
                let d = 10f64.powf(r.gen_range(1.0..14.0)).round();
                let (lo, hi) = (r.gen_bool(0.3), r.gen_bool(0.3));
                let m = if r.gen() {
                    M::Int { init: x as i64, scale, min: lo.then(|| x as i64 - d as i64), max: hi.then(|| x as i64 + d as i64) }
                } else {
                    M::Real { init: x, scale, min: lo.then(|| x - d), max: hi.then(|| x + d) }
                };
                (format!("p{k}"), m)
            })
            .collect(),
    )
}

fn liveness(c: &mut Case) -> R {
    let mut g = Gen::new(c.rng.gen_range(0..5), if c.rng.gen_bool(0.7) { Mag::Small } else { any_mag(&mut c.rng) });
    g.hostile_names = c.rng.gen_bool(0.1);
    let m = if c.rng.gen_bool(0.15) { far_numbers(&mut c.rng) } else { gen_bounded(&mut c.rng, &g, 40) };
    let spec = cambrian::spec::Spec(m.to_spec());
    let v = Value(if c.rng.gen_bool(0.3) { m.init_node() } else { m.gen_node(&mut c.rng, 5) });
    let full = c.rng.gen_bool(0.6);
    let mp = MutationParams { mutation_prob: if full { 1.0 } else { 0.5 }, mutation_scale: 1.0 };
    let mut o = ops::new();
    let mut rng = StdRng::seed_from_u64(c.rng.gen());
    c.note = format!("{mp:?}, value {:?}, spec {}", v.0, m.yaml());
    let mut live = std::collections::BTreeMap::new();
    for _ in 0..80 {
        let x = o.mutate(&spec, &v, &mp, &mut rng);
        walk(&m, &v.0, &x.0, &mut String::new(), &mut live);
        c.distinct(sig_json(&x.to_json()));
    }
    for (path, l) in &live {
        if full && l.every {
            ensure!(l.changed == l.attempts, "mutation with probability 1 left the {} at '{path}' as it was in {} of {} attempts\n value {:?}\n{}", l.kind, l.attempts - l.changed, l.attempts, v.0, m.yaml());
        } else {
            ensure!(l.changed > 0 || l.attempts < 64, "{} mutations with {mp:?} never changed the {} at '{path}'\n value {:?}\n{}", l.attempts, l.kind, v.0, m.yaml());
        }
        c.count(&format!("varied_{}", l.kind.replace(' ', "_")), 1);
    }
    c.count("mutations_observed", 80);
    Ok(())
}

// ------------------------------------------------------------------ mixed offspring

fn core_parents(r: &mut StdRng, kind: usize, n: usize) -> (M, Vec<N>, N) {
    let int = || M::Int { init: -1, scale: 1.0, min: None, max: None };
    // mostly small, sometimes many parts
    let mut size = |lo: usize| if r.gen_bool(0.3) { r.gen_range(lo..70) } else { r.gen_range(lo..lo + 4) };
    let (ks, more, opts) = (size(2), size(2) - 2, size(2));
    let mut parts = vec![("a".to_string(), int()), ("b".into(), int()), ("c".into(), M::Bool { init: true })];
    parts.extend((0..more).map(|k| (format!("m{k}"), int())));
    let sub = M::Sub(parts);
    let two = |i: usize| -> N {
        N::Sub(
            [("a".to_string(), Box::new(N::Int(i as i64))), ("b".to_string(), Box::new(N::Int(100 + i as i64))), ("c".to_string(), Box::new(N::Bool(true)))]
                .into_iter()
                .chain((0..more).map(|k| (format!("m{k}"), Box::new(N::Int((i * 200 + k) as i64)))))
                .collect(),
        )
    };
    match kind {
        0 => (sub.clone(), (0..n).map(two).collect(), sub.init_node()),
        1 => {
            let k = ks;
            let m = M::Arr(Box::new(int()), k);
            let i = m.init_node();
            (m, (0..n).map(|i| N::Array((0..k).map(|j| Box::new(N::Int((100 * i + j) as i64))).collect())).collect(), i)
        }
        // shared keys: the contents mix
        2 => {
            let m = M::Map { vt: Box::new(int()), init: ks, min: Some(ks), max: None };
            let i = m.init_node();
            (m, (0..n).map(|i| N::AnonMap((0..ks).map(|k| (k, Box::new(N::Int((100 * i + k) as i64)))).collect())).collect(), i)
        }
        // keys of their own: the key sets mix
        3 => {
            let m = M::Map { vt: Box::new(M::Const), init: ks, min: None, max: None };
            let i = m.init_node();
            (m, (0..n).map(|i| N::AnonMap((0..ks).map(|k| (100 * i + k, Box::new(N::Const))).collect())).collect(), i)
        }
        // same variant: its content mixes
        4 => {
            let mut os = vec![("n".to_string(), M::Const), ("s".into(), sub)];
            os.extend((2..opts).map(|k| (format!("o{k}"), M::Const)));
            let m = M::Var { opts: os, init: "s".into() };
            let i = m.init_node();
            (m, (0..n).map(|i| N::Variant("s".into(), Box::new(two(i)))).collect(), i)
        }
        5 => {
            let m = M::Opt { vt: Box::new(sub), present: true };
            let i = m.init_node();
            (m, (0..n).map(|i| N::Optional(Some(Box::new(two(i))))).collect(), i)
        }
        // several variants: the contents of those that share one mix
        6 => {
            let m = M::Var { opts: vec![("n".to_string(), M::Const), ("s".into(), sub)], init: "s".into() };
            let i = m.init_node();
            let other = |i| i % 3 == 2;
            (m, (0..n).map(|i| if other(i) { N::Variant("n".into(), Box::new(N::Const)) } else { N::Variant("s".into(), Box::new(two(i))) }).collect(), i)
        }
        // present and absent: the contents of those present mix
        7 => {
            let m = M::Opt { vt: Box::new(sub), present: true };
            let i = m.init_node();
            (m, (0..n).map(|i| N::Optional((i % 3 != 2).then(|| Box::new(two(i))))).collect(), i)
        }
        // one shared key: its content mixes
        8 => {
            let m = M::Map { vt: Box::new(sub), init: 1, min: Some(1), max: None };
            let i = m.init_node();
            (m, (0..n).map(|i| N::AnonMap([(7usize, Box::new(two(i)))].into_iter().collect())).collect(), i)
        }
        // a key which only some have: its content mixes
        _ => {
            let m = M::Map { vt: Box::new(sub), init: 1, min: None, max: Some(1) };
            let i = m.init_node();
            (m, (0..n).map(|i| N::AnonMap(if i % 3 == 2 { Default::default() } else { [(7usize, Box::new(two(i)))].into_iter().collect() })).collect(), i)
        }
    }
}

fn mixed(c: &mut Case) -> R {
    let kind = c.rng.gen_range(0..10usize);
    let n = if c.rng.gen_bool(0.2) { c.rng.gen_range(9..=100) } else { c.rng.gen_range(2..=8) };
    let sp = c.rng.gen_range(0.0..0.6);
    let ws = wraps(&mut c.rng, 3);
    let (core, parents, fill) = core_parents(&mut c.rng, kind, n);
    let m = wrap_m(&ws, core.clone());
    let spec = cambrian::spec::Spec(m.to_spec());
    let ps: Vec<Value> = parents.iter().map(|p| Value(wrap_n(&ws, p, &fill))).collect();
    let refs: Vec<&Value> = ps.iter().collect();
    let p = CrossoverParams { crossover_prob: 1.0, selection_pressure: sp };
    let mut o = ops::new();
    let mut rng = StdRng::seed_from_u64(c.rng.gen());
    c.note = format!("{p:?} {n} parents {:?}", refs[0].0);
    let mut hits = 0;
    for _ in 0..100 {
        let x = o.crossover(&spec, &refs, &p, &mut rng);
        if !refs.iter().any(|p| node_eq(&p.0, &x.0)) {
            hits += 1;
        }
        c.distinct(sig_json(&x.to_json()));
    }
    c.count("mixed_offspring", hits);
    c.max("fewest_mixed_offspring_of_100_inverted", 100 - hits);
    c.count("recombinations_observed", 100);
    ensure!(hits > 0, "100 recombinations of {n} differing parents with {p:?} all equal one of the parents\n first {:?}\n second {:?}\n{}", refs[0].0, refs[1].0, m.yaml());
    Ok(())
}

// ------------------------------------------------------------------ whole runs

/// in a whole run every parameter is varied, whatever the objective function says
fn run_variation(c: &mut Case) -> R {
    let g = Gen { max_children: 4, ambiguous_opt: false, wide: 0.0, ..Gen::new(c.rng.gen_range(1..3), Mag::Small) };
    let m = gen_bounded(&mut c.rng, &g, 25);
    if m.has_ambiguous_opt() {
        return Ok(()); // present and absent look the same
    }
    let h = c.rng.gen::<u64>();
    let flat = c.rng.gen_bool(0.2);
    let p = Problem {
        m: m.clone(),
        f: objf(move |j| if flat { 1.0 } else { ((sig_json(j) ^ h) % 1000) as f64 }),
        budget: 400,
        init_gap: 1.0,
        optimum: 0.0,
    };
    let conc = *[1usize, 4].choose(&mut c.rng).unwrap();
    let cfg = Cfg { target: None, ..bench_cfg(&p, &mut c.rng, conc) };
    c.note = format!("concurrency {conc}, spec {}", m.yaml());
    let tr = sim::run(&cfg);
    c.count("evaluations_observed", tr.recs.len() as u64);
    let sim::End::Ok { .. } = &tr.end else { viol!("the run ends with {:?}\n{}", tr.end, m.yaml()) };
    let init = m.init_node();
    let mut live = std::collections::BTreeMap::new();
    for r in &tr.recs {
        let Some(x) = m.decode(&r.value) else { return Ok(()) }; // C01's business
        walk(&m, &init, &x, &mut String::new(), &mut live);
        c.distinct(sig_json(&r.value));
    }
    for (path, l) in &live {
        // positions inside maps, variants and optionals need not exist most of the time
        if l.attempts as usize >= tr.recs.len() / 2 {
            c.count(&format!("varied_{}", l.kind.replace(' ', "_")), 1);
            ensure!(l.changed > 0, "a run of {} evaluations never varied the {} at '{path}'\n{}", tr.recs.len(), l.kind, m.yaml());
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "distinct benchmark runs, mutated and recombined values, selection settings",
        assumptions: &[
            "benchmark factors are stated per family in c17.rs: they hold with a margin of at least 8 (gap) or 3 (evaluations) over calibration runs with 25 random number streams",
            "selection frequencies are compared at 6.5 standard deviations",
        ],
        suites: vec![
            suite("bench", FAMILIES.len() as u64, FAMILIES.len() as u64 * 20, bench),
            suite("selection", 3_000, 20_000, selection),
            suite("membership", 500, 6_000, membership),
            suite("liveness", 40_000, 200_000, liveness),
            suite("mixed", 8_000, 40_000, mixed),
            suite("run_variation", 1_000, 6_000, run_variation),
        ],
    }
}
