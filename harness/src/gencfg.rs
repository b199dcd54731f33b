//! Random run configurations for the simulator.
use crate::model::*;
use crate::sim::*;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Focus {
    Any,
    Budget,
    Term,
    Target,
    Fail,
    Long,
}

pub fn any_mag(r: &mut StdRng) -> Mag {
    *[Mag::Small, Mag::Small, Mag::Mixed, Mag::Huge].choose(r).unwrap()
}

pub fn gen_space(r: &mut StdRng, w: usize) -> M {
    let mut g = Gen::new(r.gen_range(0..4), any_mag(r));
    g.hostile_names = r.gen_bool(0.2);
    gen_bounded(r, &g, w)
}

pub fn gen_cfg(r: &mut StdRng, focus: Focus) -> Cfg {
    let m = gen_space(r, 24);
    let spec = cambrian::spec::Spec(m.to_spec());
    let conc = match r.gen_range(0..10) {
        0..=3 => 1,
        4..=7 => r.gen_range(2..6),
        8 => r.gen_range(6..40),
        _ => *[64, 150].choose(r).unwrap(),
    };
    let mut sample = if r.gen_bool(0.7) { 1 } else { *[2, 3, 5, 50].choose(r).unwrap() };
    let mut budget = match r.gen_range(0..10) {
        0 => Some(r.gen_range(0..3)),
        1..=5 => Some(r.gen_range(0..60)),
        6..=7 => Some(r.gen_range(60..300)),
        _ => None,
    };
    if focus == Focus::Budget && budget.is_none() {
        budget = Some(*[0, 1, conc - 1, conc, conc + 1, conc * 2, 101, 150].choose(r).unwrap());
    }
    if focus == Focus::Long {
        budget = Some(r.gen_range(300..900));
    }
    if m.weight() > 60 || m.depth() > 12 {
        budget = budget.map(|b| b.min(200));
    }
    let mut strat = STRATS.choose(r).unwrap().clone();
    if focus == Focus::Target && r.gen_bool(0.2) {
        let t = *[0.0, -0.0, 1.0, -1.0, 0.5, -3.25, 1e6, -123456.789, 1e-9, -1e-12, 1e15, 5e-324, -5e-324, 1e300].choose(r).unwrap();
        strat = Strat::Near(t);
        sample = 1;
    }
    let target = if focus == Focus::Target || r.gen_bool(0.1) {
        Some(match &strat {
            Strat::Const(c) => *c,
            Strat::F(_) => 0.0,
            Strat::Ties(_) | Strat::Zeroes => 0.0,
            Strat::Inc => r.gen_range(0..3) as f64 - 1.0,
            Strat::Dec => -(r.gen_range(0..60) as f64),
            Strat::Extreme => *[-1e300, 0.0, 1e-300, -1e-300].choose(r).unwrap(),
            Strat::SizeMin => r.gen_range(5..100) as f64,
            Strat::Near(t) => *t,
            Strat::SizeMax => -(r.gen_range(5..200) as f64),
            Strat::MagMax => -10f64.powi(r.gen_range(0..40)),
            Strat::Rand => *[-0.5, -0.9, -0.99].choose(r).unwrap(),
            Strat::RandExp => -10f64.powi(r.gen_range(-10..250)),
            Strat::Hash(_) => r.gen_range(0..20) as f64,
            Strat::Square => 10f64.powi(r.gen_range(-3..6)),
            Strat::Noisy => 1e9 + r.gen_range(0.0..20.0),
        })
    } else {
        None
    };
    let term = if focus == Focus::Term || r.gen_bool(0.1) {
        let k = match r.gen_range(0..4) {
            0 => 0,
            1 => r.gen_range(0..5),
            2 => r.gen_range(0..50),
            _ => r.gen_range(0..150),
        };
        match r.gen_range(0..8) {
            0 => Term::BeforeStart,
            1..=4 => Term::Quiet(k),
            _ => Term::WithRelease(k),
        }
    } else {
        Term::Never
    };
    if focus == Focus::Term && r.gen_bool(0.6) {
        budget = None;
    }
    let horizon = budget.unwrap_or(80).max(1);
    let mut fail = vec![];
    let mut nonfinite = vec![];
    if focus == Focus::Fail || r.gen_bool(0.05) {
        for _ in 0..r.gen_range(1..4) {
            let n = if r.gen_bool(0.3) { r.gen_range(0..conc.min(horizon)) } else { r.gen_range(0..horizon) };
            if r.gen_bool(0.7) {
                fail.push(n);
            } else {
                nonfinite.push((n, [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN].choose(r).unwrap().to_bits()));
            }
        }
    }
    let abort = match r.gen_range(0..6) {
        0 | 1 => vec![AbortMode::Honour],
        2 => vec![AbortMode::Ignore],
        3 => vec![AbortMode::HonourWithValue, AbortMode::Honour],
        4 => vec![AbortMode::Honour, AbortMode::HonourWithValue, AbortMode::HonourWithError, AbortMode::Ignore, AbortMode::Slow],
        _ => vec![AbortMode::Slow, AbortMode::Ignore],
    };
    let guess = if r.gen_bool(0.25) {
        let n = m.gen_node(r, 6);
        Some(n.to_json())
    } else {
        None
    };
    Cfg {
        spec, sample, conc, budget, target, guess, strat,
        reject: *[0.0, 0.0, 0.1, 0.5, 0.95].choose(r).unwrap(),
        reject_all: r.gen_bool(0.03),
        fail,
        nonfinite,
        abort,
        order: *ORDERS.choose(r).unwrap(),
        term,
        extra_terms: if r.gen_bool(0.2) { r.gen_range(1..5) } else { 0 },
        chan_cap: *[0, 1, 2, 256].choose(r).unwrap(),
        lazy_drain: r.gen(),
        backstop: if m.weight() > 60 { 150 } else if focus == Focus::Long { 1200 } else { 400 },
        seed: r.gen(),
        hang_up: None,
        accept_only: None,
        jitter_us: 0,
        m,
    }
}

pub fn describe(c: &Cfg) -> serde_json::Value {
    serde_json::json!({
        "spec": c.m.yaml(), "sample": c.sample, "concurrent": c.conc, "budget": c.budget, "target": c.target, "guess": c.guess,
        "objective": format!("{:?}", c.strat), "reject": c.reject, "reject_all": c.reject_all, "fail": c.fail, "nonfinite": c.nonfinite,
        "abort": format!("{:?}", c.abort), "order": format!("{:?}", c.order), "terminate": format!("{:?}", c.term), "report_channel": c.chan_cap, "accept_only": c.accept_only,
    })
}
