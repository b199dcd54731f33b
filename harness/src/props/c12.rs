//! Recombination invents nothing: every offspring is explained from its parents, position by position.
use super::*;
use crate::model::*;
use crate::ops::{self, Ops};
use crate::{ensure, viol};
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::value::{Node as N, Value};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};

#[derive(Default)]
pub struct Seen {
    pub leaves: u64,
    pub variants: u64,
    pub optionals: u64,
    pub keys: u64,
    pub dropped_keys: u64,
    pub narrowed: u64,
}

/// `child` can be explained as a recombination of `ps` (the parents that share this position)
pub fn derive(m: &M, ps: &[&N], child: &N, path: &mut String, s: &mut Seen) -> Result<(), String> {
    let len = path.len();
    if ps.is_empty() {
        return Err(format!("at '{path}': no parent has this position"));
    }
    match (m, child) {
        (M::Real { .. } | M::Int { .. } | M::Bool { .. } | M::Enum { .. }, c) => {
            s.leaves += 1;
            if ps.iter().any(|p| node_eq(p, c)) {
                Ok(())
            } else {
                Err(format!("at '{path}': {c:?} occurs in none of the {} parents sharing this position: {:?}", ps.len(), ps.iter().take(6).collect::<Vec<_>>()))
            }
        }
        (M::Const, N::Const) => Ok(()),
        (M::Sub(ms), N::Sub(cs)) => {
            if cs.len() != ms.len() {
                return Err(format!("at '{path}': {} keys instead of {}", cs.len(), ms.len()));
            }
            for (k, mm) in ms {
                let Some(c) = cs.get(k) else { return Err(format!("at '{path}': key {k:?} missing")) };
                let sub: Vec<&N> = ps.iter().filter_map(|p| if let N::Sub(x) = p { x.get(k).map(|b| &**b) } else { None }).collect();
                path.push('.');
                path.push_str(k);
                derive(mm, &sub, c, path, s)?;
                path.truncate(len);
            }
            Ok(())
        }
        (M::Arr(mm, n), N::Array(cs)) => {
            if cs.len() != *n {
                return Err(format!("at '{path}': array of length {}", cs.len()));
            }
            for (i, c) in cs.iter().enumerate() {
                let sub: Vec<&N> = ps.iter().filter_map(|p| if let N::Array(x) = p { x.get(i).map(|b| &**b) } else { None }).collect();
                path.push_str(&format!("[{i}]"));
                derive(mm, &sub, c, path, s)?;
                path.truncate(len);
            }
            Ok(())
        }
        (M::Map { vt, .. }, N::AnonMap(cs)) => {
            for (k, c) in cs {
                let sub: Vec<&N> = ps.iter().filter_map(|p| if let N::AnonMap(x) = p { x.get(k).map(|b| &**b) } else { None }).collect();
                if sub.is_empty() {
                    return Err(format!("at '{path}': map key {k} occurs in no parent"));
                }
                s.keys += 1;
                s.narrowed += (sub.len() < ps.len()) as u64;
                path.push_str(&format!("#{k}"));
                derive(vt, &sub, c, path, s)?;
                path.truncate(len);
            }
            Ok(())
        }
        (M::Var { opts, .. }, N::Variant(name, c)) => {
            let sub: Vec<&N> = ps.iter().filter_map(|p| if let N::Variant(n, x) = p { (n == name).then(|| &**x) } else { None }).collect();
            if sub.is_empty() {
                return Err(format!("at '{path}': variant {name:?} occurs in no parent"));
            }
            s.variants += 1;
            s.narrowed += (sub.len() < ps.len()) as u64;
            let Some(mm) = opts.iter().find(|o| o.0 == *name) else { return Err(format!("at '{path}': variant {name:?} is not declared")) };
            path.push_str(&format!("<{name}>"));
            derive(&mm.1, &sub, c, path, s)?;
            path.truncate(len);
            Ok(())
        }
        (M::Opt { vt, .. }, N::Optional(c)) => {
            s.optionals += 1;
            match c {
                None => {
                    if ps.iter().any(|p| matches!(p, N::Optional(None))) {
                        Ok(())
                    } else {
                        Err(format!("at '{path}': absent, but present in all {} parents", ps.len()))
                    }
                }
                Some(c) => {
                    let sub: Vec<&N> = ps.iter().filter_map(|p| if let N::Optional(Some(x)) = p { Some(&**x) } else { None }).collect();
                    if sub.is_empty() {
                        return Err(format!("at '{path}': present, but absent in all {} parents", ps.len()));
                    }
                    s.narrowed += (sub.len() < ps.len()) as u64;
                    path.push('?');
                    derive(vt, &sub, c, path, s)?;
                    path.truncate(len);
                    Ok(())
                }
            }
        }
        (m, c) => Err(format!("at '{path}': {} expected, found {c:?}", m.kind())),
    }
}

/// parents of one family (sharing most of their structure), random strangers, or a mix
pub fn gen_parents(m: &M, r: &mut StdRng, n: usize) -> Vec<Value> {
    let spec = cambrian::spec::Spec(m.to_spec());
    let mut o = ops::new();
    let mut orng = StdRng::seed_from_u64(r.gen());
    let ks = *[0usize, 2, 6].choose(r).unwrap();
    let style = r.gen_range(0..4);
    let mut out: Vec<Value> = vec![];
    while out.len() < n {
        let x = if out.is_empty() || style == 0 || (style == 1 && r.gen_bool(0.3)) {
            Value(m.gen_node(r, ks))
        } else if style == 3 && r.gen_bool(0.5) {
            out.choose(r).unwrap().clone()
        } else {
            let p = MutationParams { mutation_prob: *[0.02, 0.1, 0.3, 0.7].choose(r).unwrap(), mutation_scale: 1.0 };
            let b = if style == 2 { out.choose(r).unwrap() } else { &out[0] };
            o.mutate(&spec, b, &p, &mut orng)
        };
        // the parents must be members themselves (that mutation yields members is C01's business)
        if m.conforms_node(&x.0).is_ok() {
            out.push(x);
        }
    }
    out
}

fn prob(r: &mut StdRng) -> f64 {
    match r.gen_range(0..6) {
        0 => 0.0,
        1 | 2 => 1.0,
        3 => 0.5,
        _ => r.gen::<f64>(),
    }
}

fn offspring(c: &mut Case) -> R {
    let mut g = Gen::new(c.rng.gen_range(1..5), any_mag(&mut c.rng));
    g.hostile_names = c.rng.gen_bool(0.2);
    let m = gen_bounded(&mut c.rng, &g, 40);
    let spec = cambrian::spec::Spec(m.to_spec());
    let n = match c.rng.gen_range(0..6) {
        0 => 1,
        1 | 2 => 2,
        3 => 3,
        4 => c.rng.gen_range(2..12),
        _ => *[30, 100].choose(&mut c.rng).unwrap(),
    };
    let ps = gen_parents(&m, &mut c.rng, n);
    let nodes: Vec<&N> = ps.iter().map(|v| &v.0).collect();
    let refs: Vec<&Value> = ps.iter().collect();
    let same = nodes.iter().all(|x| node_eq(x, nodes[0]));
    let mut o = ops::new();
    let mut orng = StdRng::seed_from_u64(c.rng.gen());
    let mut seen = Seen::default();
    for _ in 0..8 {
        let cp = CrossoverParams { crossover_prob: prob(&mut c.rng), selection_pressure: prob(&mut c.rng) };
        c.note = format!("{n} parents, {cp:?}, spec {}", m.yaml());
        let x = o.crossover(&spec, &refs, &cp, &mut orng);
        if let Err(e) = derive(&m, &nodes, &x.0, &mut String::new(), &mut seen) {
            viol!("the offspring of {n} parents ({cp:?}) is not a recombination of them: {e}\n child {:?}\n parents {:?}\n{}", x.0, nodes.iter().take(4).collect::<Vec<_>>(), m.yaml());
        }
        if same {
            ensure!(node_eq(&x.0, nodes[0]), "the offspring of {n} identical parents ({cp:?}) differs from them:\n child {:?}\n parent {:?}\n{}", x.0, nodes[0], m.yaml());
            c.count("offspring_of_identical_parents", 1);
        }
        let copy = nodes.iter().any(|p| node_eq(p, &x.0));
        c.count(if copy { "offspring_equal_to_a_parent" } else { "offspring_mixed" }, 1);
        c.distinct((sig_json(&x.to_json()), n));
        let y = m.yaml();
        c.sample(|| serde_json::json!({"spec": y, "parents": ps.iter().take(3).map(|p| p.to_json()).collect::<Vec<_>>(), "params": format!("{cp:?}"), "offspring": x.to_json()}));
    }
    c.count("leaves_traced", seen.leaves);
    c.count("variants_traced", seen.variants);
    c.count("optionals_traced", seen.optionals);
    c.count("map_keys_traced", seen.keys);
    c.count("positions_not_shared_by_all_parents", seen.narrowed);
    Ok(())
}

fn identical(c: &mut Case) -> R {
    let mut g = Gen::new(c.rng.gen_range(0..5), any_mag(&mut c.rng));
    g.hostile_names = c.rng.gen_bool(0.2);
    let m = gen_bounded(&mut c.rng, &g, 60);
    let spec = cambrian::spec::Spec(m.to_spec());
    let p = Value(m.gen_node(&mut c.rng, 6));
    let n = *[1usize, 1, 2, 3, 10, 100].choose(&mut c.rng).unwrap();
    let copies: Vec<Value> = (0..n).map(|_| p.clone()).collect();
    let refs: Vec<&Value> = copies.iter().collect();
    let mut o = ops::new();
    let mut orng = StdRng::seed_from_u64(c.rng.gen());
    for _ in 0..6 {
        let cp = CrossoverParams { crossover_prob: prob(&mut c.rng), selection_pressure: prob(&mut c.rng) };
        c.note = format!("{n} identical parents, {cp:?}, spec {}", m.yaml());
        let x = o.crossover(&spec, &refs, &cp, &mut orng);
        ensure!(node_eq(&x.0, &p.0), "the offspring of {n} identical parents ({cp:?}) differs from them:\n child {:?}\n parent {:?}\n{}", x.0, p.0, m.yaml());
        c.count("offspring_of_identical_parents", 1);
    }
    c.distinct((sig_json(&p.to_json()), n));
    Ok(())
}

/// many generations through one path context, with mutation in between: as in a run
fn lineage(c: &mut Case) -> R {
    let m = gen_space(&mut c.rng, 30);
    let spec = cambrian::spec::Spec(m.to_spec());
    let mut o = ops::new();
    let mut orng = StdRng::seed_from_u64(c.rng.gen());
    let mut pop = vec![Value(if c.rng.gen() { m.init_node() } else { m.gen_node(&mut c.rng, 4) })];
    let mut seen = Seen::default();
    for step in 0..60 {
        let cp = CrossoverParams { crossover_prob: prob(&mut c.rng), selection_pressure: prob(&mut c.rng) };
        let mp = MutationParams { mutation_prob: prob(&mut c.rng) * 0.5, mutation_scale: 1.0 };
        let x = {
            let refs: Vec<&Value> = pop.iter().collect();
            o.crossover(&spec, &refs, &cp, &mut orng)
        };
        let nodes: Vec<&N> = pop.iter().map(|v| &v.0).collect();
        c.note = format!("lineage step {step}, {cp:?}, spec {}", m.yaml());
        if let Err(e) = derive(&m, &nodes, &x.0, &mut String::new(), &mut seen) {
            viol!("step {step}: the offspring of {} parents ({cp:?}) is not a recombination of them: {e}\n child {:?}\n{}", pop.len(), x.0, m.yaml());
        }
        if nodes.iter().all(|n| node_eq(n, nodes[0])) {
            ensure!(node_eq(&x.0, nodes[0]), "step {step}: the offspring of identical parents differs from them: {:?} / {:?}", x.0, nodes[0]);
        }
        let y = o.mutate(&spec, &x, &mp, &mut orng);
        if m.conforms_node(&y.0).is_err() {
            break; // C01's business
        }
        c.distinct(sig_json(&x.to_json()));
        if pop.len() >= 30 {
            let k = c.rng.gen_range(0..pop.len());
            pop.remove(k);
        }
        let at = c.rng.gen_range(0..=pop.len());
        pop.insert(at, y);
    }
    c.count("leaves_traced", seen.leaves);
    c.count("positions_not_shared_by_all_parents", seen.narrowed);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "distinct offspring of recombinations, each traced leaf by leaf to its parents",
        assumptions: &["the parents are members of the space and are given best first, as the algorithm does"],
        suites: vec![
            suite("offspring", 25000, 800000, offspring),
            suite("identical", 8000, 200000, identical),
            suite("lineage", 2000, 60000, lineage),
        ],
    }
}
