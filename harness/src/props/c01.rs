use super::*;
use crate::model::*;
use crate::{ensure, oracle, viol};
use rand::seq::SliceRandom;
use rand::Rng;

fn runs(c: &mut Case) -> R {
    sim_case(c, Focus::Any, oracle::c01)
}

fn long(c: &mut Case) -> R {
    sim_case(c, Focus::Long, oracle::c01)
}

/// runs started with a guess that may not conform: whatever is accepted, everything evaluated conforms
fn guessed(c: &mut Case) -> R {
    let mut cfg = gen_cfg(&mut c.rng, if c.idx % 8 == 0 { Focus::Long } else { Focus::Any });
    cfg.budget = Some(cfg.budget.unwrap_or(30).clamp(1, 300));
    let j = if c.rng.gen_bool(0.03) {
        c11::any_json(&mut c.rng, 3)
    } else {
        let mut j = cambrian::value::Value(cfg.m.gen_node(&mut c.rng, 4)).to_json();
        for _ in 0..c.rng.gen_range(1..3) {
            c11::corrupt(&cfg.m, &mut j, &mut c.rng);
        }
        j
    };
    cfg.guess = Some(j);
    let tr = sim_run(c, &cfg)?;
    c.count(if tr.recs.is_empty() { "guesses_not_evaluated" } else { "guesses_evaluated" }, 1);
    judge(&cfg, &tr, oracle::c01)
}

/// populations of unrelated members of a resizable map (nested in 0 to 2 other nodes): recombination has
/// to respect the size bounds whatever keys the parents share
fn map_crossover(c: &mut Case) -> R {
    use crate::ops::{self, Ops};
    use cambrian::meta::{CrossoverParams, MutationParams};
    let m = gen_map(&mut c.rng);
    let spec = cambrian::spec::Spec(m.to_spec());
    let mut o = ops::new();
    let mut orng: rand::rngs::StdRng = rand::SeedableRng::seed_from_u64(c.rng.gen());
    let ks = *[0usize, 1, 3, 20].choose(&mut c.rng).unwrap();
    let mut pop: Vec<cambrian::value::Value> = (0..c.rng.gen_range(2..8)).map(|_| cambrian::value::Value(m.gen_node(&mut c.rng, ks))).collect();
    for step in 0..c.rng.gen_range(10..40) {
        let cp = CrossoverParams { crossover_prob: if c.rng.gen_bool(0.8) { 1.0 } else { c.rng.gen() }, selection_pressure: *[0.0, 0.01, 0.5, 0.9, 1.0].choose(&mut c.rng).unwrap() };
        let mp = MutationParams { mutation_prob: *[0.0, 0.2, 1.0].choose(&mut c.rng).unwrap(), mutation_scale: 1.0 };
        let refs: Vec<&cambrian::value::Value> = pop.iter().collect();
        c.note = format!("map crossover step {step}, {mp:?}, {cp:?}, spec {}", m.yaml());
        let x = o.crossover(&spec, &refs, &cp, &mut orng);
        if let Err(e) = m.conforms_node(&x.0) {
            viol!("crossover result does not conform: {e}\n {:?}\n{}", x, m.yaml());
        }
        let y = o.mutate(&spec, &x, &mp, &mut orng);
        if let Err(e) = m.conforms_node(&y.0) {
            viol!("mutation result does not conform ({mp:?}): {e}\n from {:?}\n to {:?}\n{}", x, y, m.yaml());
        }
        c.count("offspring_checked", 1);
        c.distinct(sig_json(&y.to_json()));
        if c.rng.gen_bool(0.7) {
            let k = c.rng.gen_range(0..pop.len());
            pop[k] = if c.rng.gen_bool(0.3) { cambrian::value::Value(m.gen_node(&mut c.rng, ks)) } else { y };
        }
    }
    Ok(())
}

/// lineages of mutate/crossover driven directly with extreme parameters
pub fn ops_lineage(c: &mut Case) -> R {
    use crate::ops::{self, Ops};
    use cambrian::meta::{CrossoverParams, MutationParams};
    let m = gen_space(&mut c.rng, 30);
    let spec = cambrian::spec::Spec(m.to_spec());
    let mut o = ops::new();
    let init = cambrian::value::Value(m.init_node());
    let mut pop = vec![init];
    let use_guess = c.rng.gen_bool(0.3);
    if use_guess {
        pop[0] = cambrian::value::Value(m.gen_node(&mut c.rng, 6));
    }
    let mut orng: rand::rngs::StdRng = rand::SeedableRng::seed_from_u64(c.rng.gen());
    let n = c.rng.gen_range(20..80);
    for step in 0..n {
        let prob = |r: &mut rand::rngs::StdRng| match r.gen_range(0..5) {
            0 => 0.0,
            1 | 2 => 1.0,
            _ => r.gen::<f64>(),
        };
        let cp = CrossoverParams { crossover_prob: prob(&mut c.rng), selection_pressure: prob(&mut c.rng) };
        let ms = match c.rng.gen_range(0..6) {
            0 => 1e300,
            1 => 1e-300,
            2 => 1e12,
            _ => 10f64.powf(c.rng.gen_range(-3.0..3.0)),
        };
        let mp = MutationParams { mutation_prob: prob(&mut c.rng), mutation_scale: ms };
        let refs: Vec<&cambrian::value::Value> = pop.iter().collect();
        c.note = format!("op lineage step {step}, {mp:?}, {cp:?}, spec {}", m.yaml());
        let x = o.crossover(&spec, &refs, &cp, &mut orng);
        if let Err(e) = m.conforms_node(&x.0) {
            viol!("crossover result does not conform: {e}\n {:?}\n{}", x, m.yaml());
        }
        let y = o.mutate(&spec, &x, &mp, &mut orng);
        if let Err(e) = m.conforms_node(&y.0) {
            viol!("mutation result does not conform ({mp:?}): {e}\n from {:?}\n to {:?}\n{}", x, y, m.yaml());
        }
        if let Err(e) = m.conforms(&y.to_json()) {
            viol!("JSON form of a mutation result does not conform: {e}");
        }
        c.count("offspring_checked", 1);
        c.distinct(sig_json(&y.to_json()));
        if pop.len() >= 8 {
            let k = c.rng.gen_range(0..pop.len());
            pop.remove(k);
        }
        let at = c.rng.gen_range(0..=pop.len());
        pop.insert(at, y);
    }
    ensure!(pop.len() > 1, "?");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "distinct interleavings of simulated runs in which something was evaluated, and distinct offspring of directly driven mutate/crossover lineages",
        assumptions: &["the harness' own model of parameter spaces (harness/src/model.rs) states what a spec means"],
        suites: vec![
            suite("runs", 3000, 60000, runs),
            suite("long", 300, 6000, long),
            suite("guessed", 4000, 80000, guessed),
            suite("ops", 4000, 80000, ops_lineage),
            suite("map_crossover", 2500, 60000, map_crossover),
            suite("cli_plain", 480, 8000, cli::plain_c01).threads(12),
            suite("sync_launch", 1000, 30000, inproc::c01).threads(6),
        ],
    }
}
