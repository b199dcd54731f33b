//! Mutation is local: a relation between input and output, checked on direct calls and on whole runs.
use super::*;
use crate::model::*;
use crate::ops::{self, Ops};
use crate::{ensure, viol};
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::value::{Node as N, Value};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P {
    Zero,
    Mid,
    One,
}

#[derive(Default)]
pub struct Seen {
    pub grown: u64,
    pub shrunk: u64,
    pub kept: u64,
    pub switched: u64,
    pub materialised: u64,
    pub dropped: u64,
    pub pinned: u64,
}

/// Could `to` be the result of mutating `from` with a probability that is zero / anything / one?
/// `absorb`: steps never change a number (scale below the resolution of the values).
pub fn mutated(m: &M, from: &N, to: &N, p: P, absorb: bool, path: &mut String, s: &mut Seen) -> Result<(), String> {
    let len = path.len();
    let bad = |path: &String, t: String| Err(format!("at '{path}': {t}"));
    match (m, from, to) {
        (M::Real { .. }, N::Real(a), N::Real(b)) => {
            if a.to_bits() != b.to_bits() && (p == P::Zero || absorb) {
                return bad(path, format!("real {a} became {b}"));
            }
            Ok(())
        }
        (M::Int { .. }, N::Int(a), N::Int(b)) => {
            if a != b && (p == P::Zero || absorb) {
                return bad(path, format!("int {a} became {b}"));
            }
            Ok(())
        }
        (M::Bool { .. }, N::Bool(a), N::Bool(b)) => if a != b && p == P::Zero { bad(path, format!("bool {a} became {b}")) } else { Ok(()) },
        (M::Enum { .. }, N::Enum(a), N::Enum(b)) => if a != b && p == P::Zero { bad(path, format!("enum {a} became {b}")) } else { Ok(()) },
        (M::Const, N::Const, N::Const) => Ok(()),
        (M::Sub(ms), N::Sub(f), N::Sub(t)) => {
            for (k, mm) in ms {
                let (Some(a), Some(b)) = (f.get(k), t.get(k)) else { return bad(path, format!("key {k:?} missing")) };
                path.push('.');
                path.push_str(k);
                mutated(mm, a, b, p, absorb, path, s)?;
                path.truncate(len);
            }
            if t.len() != ms.len() {
                return bad(path, "undeclared keys".into());
            }
            Ok(())
        }
        (M::Arr(mm, _), N::Array(f), N::Array(t)) => {
            if f.len() != t.len() {
                return bad(path, format!("array length {} became {}", f.len(), t.len()));
            }
            for (i, (a, b)) in f.iter().zip(t).enumerate() {
                path.push_str(&format!("[{i}]"));
                mutated(mm, a, b, p, absorb, path, s)?;
                path.truncate(len);
            }
            Ok(())
        }
        (M::Map { vt, min, max, .. }, N::AnonMap(f), N::AnonMap(t)) => {
            let gone: Vec<&usize> = f.keys().filter(|k| !t.contains_key(k)).collect();
            let new: Vec<&usize> = t.keys().filter(|k| !f.contains_key(k)).collect();
            let pinned = f.len() == min.unwrap_or(0) && Some(f.len()) == *max;
            match (gone.len(), new.len()) {
                (0, 0) => {
                    s.kept += 1;
                    s.pinned += pinned as u64;
                    if p == P::One && !pinned {
                        return bad(path, format!("map of size {} (bounds {min:?}..{max:?}) was not resized although the probability is 1", f.len()));
                    }
                }
                (1, 0) => s.shrunk += 1,
                (0, 1) => s.grown += 1,
                (g, n) => return bad(path, format!("map with keys {:?} became {:?}: {g} removed and {n} added by one mutation", f.keys(), t.keys())),
            }
            if p == P::Zero && gone.len() + new.len() > 0 {
                return bad(path, "map was resized with probability 0".into());
            }
            for (k, a) in f {
                if let Some(b) = t.get(k) {
                    path.push_str(&format!("#{k}"));
                    mutated(vt, a, b, p, absorb, path, s)?;
                    path.truncate(len);
                }
            }
            Ok(())
        }
        (M::Var { opts, .. }, N::Variant(a, f), N::Variant(b, t)) => {
            let Some(mm) = opts.iter().find(|o| o.0 == *b) else { return bad(path, format!("undeclared option {b:?}")) };
            path.push_str(&format!("<{b}>"));
            if a == b {
                mutated(&mm.1, f, t, p, absorb, path, s)?;
            } else {
                if p == P::Zero {
                    return bad(path, format!("variant {a} became {b}"));
                }
                s.switched += 1;
                let init = mm.1.init_node();
                mutated(&mm.1, &init, t, switched(p), absorb, path, s).map_err(|e| format!("{e} (variant switched from {a:?} to {b:?}, starting from the initial value)"))?;
            }
            path.truncate(len);
            Ok(())
        }
        (M::Opt { vt, .. }, N::Optional(f), N::Optional(t)) => {
            path.push('?');
            match (f, t) {
                (None, None) => {}
                (Some(a), Some(b)) => mutated(vt, a, b, p, absorb, path, s)?,
                _ if p == P::Zero => return bad(path, "presence changed with probability 0".into()),
                (Some(_), None) => s.dropped += 1,
                (None, Some(b)) => {
                    s.materialised += 1;
                    let init = vt.init_node();
                    mutated(vt, &init, b, switched(p), absorb, path, s).map_err(|e| format!("{e} (optional materialised, starting from the initial value)"))?;
                }
            }
            path.truncate(len);
            Ok(())
        }
        (m, f, t) => bad(path, format!("{}: {f:?} became {t:?}", m.kind())),
    }
}

/// whether the freshly switched-in initial value is itself mutated is left open
fn switched(p: P) -> P {
    if p == P::Zero { P::Zero } else { P::Mid }
}

fn note_seen(c: &mut Case, s: &Seen) {
    c.count("maps_grown", s.grown);
    c.count("maps_shrunk", s.shrunk);
    c.count("maps_kept", s.kept);
    c.count("variants_switched", s.switched);
    c.count("optionals_materialised", s.materialised);
    c.count("optionals_dropped", s.dropped);
}

/// gives maps keys of their own: gaps, huge ones, all but one of a dense range
pub fn rekey(n: &mut N, r: &mut StdRng) {
    match n {
        N::Sub(m) => {
            let mut ks: Vec<String> = m.keys().cloned().collect();
            ks.sort();
            for k in ks {
                rekey(m.get_mut(&k).unwrap(), r);
            }
        }
        N::Array(a) => a.iter_mut().for_each(|x| rekey(x, r)),
        N::Variant(_, x) => rekey(x, r),
        N::Optional(Some(x)) => rekey(x, r),
        N::AnonMap(m) => {
            let mut ks: Vec<usize> = m.keys().copied().collect();
            ks.sort();
            let style = r.gen_range(0..5);
            let vals: Vec<Box<N>> = ks.iter().map(|k| m.remove(k).unwrap()).collect();
            let mut used = BTreeSet::new();
            for (i, mut v) in vals.into_iter().enumerate() {
                rekey(&mut v, r);
                let mut k = match style {
                    0 => ks[i],
                    1 => usize::MAX - i,
                    2 => i + 1,
                    3 => i * 2 + 1,
                    _ => *[0, 1, 2, 3, 5, 1000, usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32].choose(r).unwrap(),
                };
                while !used.insert(k) {
                    k = k.wrapping_add(1);
                }
                m.insert(k, v);
            }
        }
        _ => {}
    }
}

fn params(r: &mut StdRng) -> (f64, P) {
    match r.gen_range(0..6) {
        0 | 1 => (0.0, P::Zero),
        2 | 3 => (1.0, P::One),
        4 => (*[0.01, 0.1, 0.5, 0.9].choose(r).unwrap(), P::Mid),
        _ => (r.gen::<f64>(), P::Mid),
    }
}

fn space(r: &mut StdRng, w: usize) -> (M, bool) {
    let absorb = r.gen_bool(0.7);
    let mut g = Gen::new(r.gen_range(0..5), if absorb { Mag::Absorb } else { any_mag(r) });
    g.hostile_names = r.gen_bool(0.15);
    (gen_bounded(r, &g, w), absorb)
}

fn lineage(c: &mut Case) -> R {
    let (m, absorb) = space(&mut c.rng, 40);
    let spec = cambrian::spec::Spec(m.to_spec());
    let mut o = ops::new();
    let mut orng = StdRng::seed_from_u64(c.rng.gen());
    let mut v = if c.rng.gen() { m.init_node() } else { m.gen_node(&mut c.rng, 5) };
    if c.rng.gen_bool(0.3) {
        rekey(&mut v, &mut c.rng);
    }
    let mut s = Seen::default();
    for step in 0..24 {
        let (p, pp) = params(&mut c.rng);
        // (a scale above 100 could move the values that are meant to stay where they are)
        let scales: &[f64] = if pp != P::Zero && absorb { &[1.0, 1.0, 0.01, 100.0] } else { &[1.0, 1.0, 0.01, 100.0, 1e-300, 1e-9, 1e5, 1e7, 1e12, 1e100, 1e300] };
        let mp = MutationParams { mutation_prob: p, mutation_scale: *scales.choose(&mut c.rng).unwrap() };
        c.note = format!("step {step}, {mp:?}, spec {}", m.yaml());
        let to = o.mutate(&spec, &Value(v.clone()), &mp, &mut orng);
        if let Err(e) = mutated(&m, &v, &to.0, pp, absorb, &mut String::new(), &mut s) {
            viol!("mutation with {mp:?}: {e}\n from {v:?}\n to {:?}\n{}", to.0, m.yaml());
        }
        if pp == P::Zero {
            ensure!(node_eq(&v, &to.0), "mutation with probability 0 changed {v:?} to {:?}\n{}", to.0, m.yaml());
            c.count("identity_checked", 1);
        }
        c.count("mutations_checked", 1);
        c.distinct((sig_json(&to.to_json()), p.to_bits()));
        if m.conforms_node(&to.0).is_err() {
            break; // C01's business
        }
        v = match c.rng.gen_range(0..8) {
            0 => m.gen_node(&mut c.rng, 5),
            1 => {
                let mut x = to.0;
                rekey(&mut x, &mut c.rng);
                x
            }
            _ => to.0,
        };
        if crate::sim::node_count(&Value(v.clone()).to_json()) > 3000 {
            break;
        }
    }
    note_seen(c, &s);
    Ok(())
}

/// recombine several lines (their keys are drawn from one counter), then mutate
fn population(c: &mut Case) -> R {
    let (m, absorb) = space(&mut c.rng, 30);
    let spec = cambrian::spec::Spec(m.to_spec());
    let mut o = ops::new();
    let mut orng = StdRng::seed_from_u64(c.rng.gen());
    let mut pop = vec![Value(if c.rng.gen() { m.init_node() } else { m.gen_node(&mut c.rng, 3) })];
    let mut s = Seen::default();
    for step in 0..60 {
        let cp = CrossoverParams { crossover_prob: 0.7, selection_pressure: 0.3 };
        let x = {
            let refs: Vec<&Value> = pop.iter().collect();
            o.crossover(&spec, &refs, &cp, &mut orng)
        };
        let (p, pp) = params(&mut c.rng);
        let mp = MutationParams { mutation_prob: p, mutation_scale: 1.0 };
        c.note = format!("step {step}, {mp:?}, spec {}", m.yaml());
        let to = o.mutate(&spec, &x, &mp, &mut orng);
        if let Err(e) = mutated(&m, &x.0, &to.0, pp, absorb, &mut String::new(), &mut s) {
            viol!("mutation with {mp:?}: {e}\n from {:?}\n to {:?}\n{}", x.0, to.0, m.yaml());
        }
        c.count("mutations_checked", 1);
        c.distinct((sig_json(&to.to_json()), p.to_bits()));
        if m.conforms_node(&to.0).is_err() || crate::sim::node_count(&to.to_json()) > 1500 {
            break;
        }
        if pop.len() >= 20 {
            let k = c.rng.gen_range(0..pop.len());
            pop.remove(k);
        }
        pop.push(to);
    }
    note_seen(c, &s);
    Ok(())
}

/// how often the discrete positions of `n` are as in the initial value `init`, by kind
fn agree(m: &M, init: &N, n: &N, out: &mut BTreeMap<&'static str, (u64, u64)>) {
    let mut tally = |k: &'static str, ok: bool| {
        let e = out.entry(k).or_default();
        e.0 += ok as u64;
        e.1 += 1;
    };
    match (m, init, n) {
        (M::Bool { .. }, a, b) => tally("bool", node_eq(a, b)),
        (M::Enum { .. }, a, b) => tally("enum", node_eq(a, b)),
        (M::Sub(ms), N::Sub(a), N::Sub(b)) => ms.iter().for_each(|(k, mm)| agree(mm, &a[k], &b[k], out)),
        (M::Arr(mm, _), N::Array(a), N::Array(b)) => a.iter().zip(b).for_each(|(a, b)| agree(mm, a, b, out)),
        (M::Map { vt, .. }, N::AnonMap(a), N::AnonMap(b)) => {
            tally("map size", a.len() == b.len());
            for (k, a) in a {
                if let Some(b) = b.get(k) {
                    agree(vt, a, b, out);
                }
            }
        }
        (M::Opt { vt, .. }, N::Optional(a), N::Optional(b)) => {
            tally(if a.is_some() { "present optional" } else { "absent optional" }, a.is_some() == b.is_some());
            if let (Some(a), Some(b)) = (a, b) {
                agree(vt, a, b, out);
            }
        }
        (M::Var { opts, .. }, N::Variant(x, a), N::Variant(y, b)) => {
            tally("variant", x == y);
            if x == y {
                agree(&opts.iter().find(|o| o.0 == *x).unwrap().1, a, b, out);
            }
        }
        _ => {}
    }
}

/// a switched-in option / materialised optional is mostly equal to its initial value when the mutation
/// probability is small: the only way to see where booleans and enums start from
fn starts(c: &mut Case) -> R {
    let g = Gen { max_children: 6, ..Gen::new(c.rng.gen_range(0..3), Mag::Small) };
    fn big(r: &mut StdRng, g: &Gen) -> M {
        let mut v: Vec<(String, M)> = vec![];
        for i in 0..20 {
            v.push((
                format!("k{i}"),
                match r.gen_range(0..4) {
                    0 | 1 => M::Bool { init: r.gen() },
                    2 => {
                        let n = r.gen_range(2..5);
                        let vs: Vec<String> = (0..n).map(|k| format!("v{k}")).collect();
                        M::Enum { init: vs.choose(r).unwrap().clone(), values: vs }
                    }
                    _ => gen_bounded(r, g, 6),
                },
            ));
        }
        M::Sub(v)
    }
    // the same option names, with other initial values, in several places
    let opt = c.rng.gen_bool(0.5);
    let mut parts = vec![];
    for i in 0..3 {
        let x = if opt {
            M::Opt { vt: Box::new(big(&mut c.rng, &g)), present: c.rng.gen() }
        } else {
            M::Var { opts: ["a", "b", "c"].iter().map(|n| (n.to_string(), big(&mut c.rng, &g))).collect(), init: ["a", "b", "c"].choose(&mut c.rng).unwrap().to_string() }
        };
        parts.push((format!("p{i}"), x));
    }
    // options that are themselves optional, variants, maps, arrays or leaves
    for i in 0..3 {
        let gg = Gen { ambiguous_opt: true, ..Gen::new(2, Mag::Small) };
        let small = |r: &mut StdRng| match r.gen_range(0..6) {
            0 => M::Opt { vt: Box::new(M::Bool { init: r.gen() }), present: r.gen_bool(0.3) },
            1 => M::Opt { vt: Box::new(gen_bounded(r, &gg, 5)), present: r.gen() },
            2 => M::Var { opts: ["a", "b", "z"].iter().map(|n| (n.to_string(), gen_bounded(r, &gg, 4))).collect(), init: ["a", "b", "z"].choose(r).unwrap().to_string() },
            3 => M::Map { vt: Box::new(gen_bounded(r, &gg, 3)), init: r.gen_range(0..5), min: None, max: if r.gen() { Some(5) } else { None } },
            4 => M::Bool { init: r.gen() },
            _ => gen_bounded(r, &gg, 8),
        };
        let x = if c.rng.gen() {
            M::Opt { vt: Box::new(small(&mut c.rng)), present: c.rng.gen() }
        } else {
            M::Var { opts: ["a", "b", "c"].iter().map(|n| (n.to_string(), small(&mut c.rng))).collect(), init: ["a", "b", "c"].choose(&mut c.rng).unwrap().to_string() }
        };
        parts.push((format!("q{i}"), x));
    }
    let m = M::Sub(parts.clone());
    let spec = cambrian::spec::Spec(m.to_spec());
    let mut o = ops::new();
    let mut orng = StdRng::seed_from_u64(c.rng.gen());
    let p = 0.05;
    let mp = MutationParams { mutation_prob: p, mutation_scale: 1.0 };
    let mut v = m.gen_node(&mut c.rng, 3);
    let mut switches = 0u64;
    let mut seen: BTreeMap<&str, BTreeMap<&'static str, (u64, u64)>> = BTreeMap::new();
    c.note = format!("starts, spec {}", m.yaml());
    for k in 0..4000 {
        let to = o.mutate(&spec, &Value(v.clone()), &mp, &mut orng);
        if m.conforms_node(&to.0).is_err() {
            return Ok(());
        }
        for (name, pm) in &parts {
            let (N::Sub(a), N::Sub(b)) = (&v, &to.0) else { viol!("not a sub") };
            let fresh = match (pm, &*a[name], &*b[name]) {
                (M::Opt { vt, .. }, N::Optional(None), N::Optional(Some(x))) => Some((&**vt, x)),
                (M::Var { opts, .. }, N::Variant(x, _), N::Variant(y, n)) if x != y => Some((&opts.iter().find(|o| o.0 == *y).unwrap().1, n)),
                _ => None,
            };
            if let Some((fm, n)) = fresh {
                switches += 1;
                agree(fm, &fm.init_node(), n, seen.entry(name.as_str()).or_default());
            }
        }
        // start every so often from values that differ from the initial ones everywhere
        v = if k % 3 == 0 { m.gen_node(&mut c.rng, 3) } else { to.0 };
    }
    c.count("switches", switches);
    c.distinct(sig_json(&m.init_json()));
    for (name, kinds) in seen {
        for (kind, (same, total)) in kinds {
            c.count("discrete_positions_of_fresh_options", total);
            if total >= 100 {
                c.count("fresh_kinds_judged", 1);
                let f = same as f64 / total as f64;
                ensure!(f > 0.75, "with mutation probability {p} only {:.1} % of the {total} positions of kind '{kind}' in freshly chosen options / optionals at {name} are as in the declared initial value\n{}", 100.0 * f, m.yaml());
            }
        }
    }
    Ok(())
}

fn no_ambiguity(r: &mut StdRng, w: usize, absorb: bool) -> M {
    let mut g = Gen::new(r.gen_range(1..4), if absorb { Mag::Absorb } else { Mag::Small });
    g.ambiguous_opt = false;
    gen_bounded(r, &g, w)
}

/// whole runs in which the parents of every individual are known: nothing accepted (the initial value
/// is the parent), or exactly one evaluation accepted
fn runs(c: &mut Case) -> R {
    let absorb = c.rng.gen();
    let mut cfg = gen_cfg(&mut c.rng, Focus::Any);
    cfg.m = no_ambiguity(&mut c.rng, 24, absorb);
    cfg.spec = cambrian::spec::Spec(cfg.m.to_spec());
    cfg.budget = Some(c.rng.gen_range(2..120));
    cfg.target = None;
    cfg.term = sim::Term::Never;
    cfg.fail.clear();
    cfg.nonfinite.clear();
    cfg.reject = 0.0;
    let init = if c.rng.gen_bool(0.6) {
        let mut n = cfg.m.gen_node(&mut c.rng, 4);
        if c.rng.gen() {
            rekey(&mut n, &mut c.rng);
        }
        cfg.guess = Some(Value(n.clone()).to_json());
        n
    } else {
        cfg.guess = None;
        cfg.m.init_node()
    };
    cfg.reject_all = false;
    let k = if c.rng.gen() { Some(c.rng.gen_range(0..cfg.budget.unwrap())) } else { None };
    cfg.accept_only = Some(k);
    let tr = sim_run(c, &cfg)?;
    let when = k.and_then(|k| tr.recs.get(k)).and_then(|r| r.ret).unwrap_or(u64::MAX);
    let first = tr.recs.first().map(|r| r.id);
    let mut s = Seen::default();
    for r in tr.recs.iter().filter(|r| Some(r.id) != first) {
        let Some(to) = cfg.m.decode(&r.value) else { continue };
        if cfg.m.conforms_node(&to).is_err() {
            continue; // C01's business
        }
        // created before the accepted result was processed, after it, or either
        let mut cands = vec![];
        if r.start < when || !tr.quiets.iter().any(|q| q.at > when && q.at < r.start) {
            cands.push(init.clone());
        }
        if r.start > when {
            cands.extend(cfg.m.decode(&tr.recs[k.unwrap()].value));
        }
        c.count(if cands.len() == 1 { "single_possible_parent" } else { "two_possible_parents" }, 1);
        let mut errs = vec![];
        for from in &cands {
            match mutated(&cfg.m, from, &to, P::Mid, absorb, &mut String::new(), &mut s) {
                Ok(()) => break,
                Err(e) => errs.push(e),
            }
        }
        if errs.len() == cands.len() {
            viol!("individual {} is no mutation of its only possible parent(s): {errs:?}\n parents {cands:?}\n child {to:?}\n in run {}", r.id, describe(&cfg));
        }
        c.count("mutations_checked", 1);
    }
    note_seen(c, &s);
    Ok(())
}

fn fixed_maps(m: &M, n: &N, path: String, out: &mut BTreeMap<String, BTreeSet<usize>>) {
    match (m, n) {
        (M::Sub(ms), N::Sub(x)) => {
            for (k, mm) in ms {
                if let Some(v) = x.get(k) {
                    fixed_maps(mm, v, format!("{path}.{k}"), out);
                }
            }
        }
        (M::Arr(mm, _), N::Array(a)) => a.iter().enumerate().for_each(|(i, v)| fixed_maps(mm, v, format!("{path}[{i}]"), out)),
        (M::Map { .. }, N::AnonMap(x)) => {
            out.insert(path, x.keys().copied().collect());
        }
        _ => {}
    }
}

/// whole runs: an individual brings at most one key into a map that none of the earlier ones had there
fn keys(c: &mut Case) -> R {
    let focus = if c.rng.gen() { Focus::Long } else { Focus::Any };
    let mut cfg = gen_cfg(&mut c.rng, focus);
    let g = Gen::new(c.rng.gen_range(0..2), Mag::Small);
    let inner = gen_bounded(&mut c.rng, &g, 5);
    let lo = c.rng.gen_range(0..4);
    let mut map = M::Map { vt: Box::new(inner), init: lo + c.rng.gen_range(0..3), min: if lo > 0 { Some(lo) } else { None }, max: if c.rng.gen() { Some(lo + c.rng.gen_range(2..12)) } else { None } };
    if c.rng.gen_bool(0.3) {
        map = M::Arr(Box::new(map), 2);
    }
    let g2 = Gen::new(1, Mag::Small);
    cfg.m = M::Sub(vec![("m".into(), map), ("x".into(), gen_bounded(&mut c.rng, &g2, 4))]);
    cfg.spec = cambrian::spec::Spec(cfg.m.to_spec());
    cfg.guess = None;
    if c.rng.gen() {
        let mut n = cfg.m.gen_node(&mut c.rng, 4);
        rekey(&mut n, &mut c.rng);
        cfg.guess = Some(Value(n).to_json());
    }
    cfg.target = None;
    let tr = sim_run(c, &cfg)?;
    let mut known: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
    let mut ids = BTreeSet::new();
    for r in &tr.recs {
        let Some(n) = cfg.m.decode(&r.value) else { continue };
        let mut here = BTreeMap::new();
        fixed_maps(&cfg.m, &n, String::new(), &mut here);
        let first = ids.is_empty();
        if ids.insert(r.id) {
            for (p, ks) in here {
                let old = known.entry(p.clone()).or_default();
                let new: Vec<usize> = ks.difference(old).copied().collect();
                if !first {
                    ensure!(new.len() <= 1, "individual {} brings {} new keys into the map at '{p}': {new:?}\n in run {}", r.id, new.len(), describe(&cfg));
                    c.count("map_keys_introduced", new.len() as u64);
                    c.count("maps_checked", 1);
                }
                old.extend(ks);
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "distinct results of mutations, each checked against its input; distinct interleavings of whole runs with known parents",
        assumptions: &["a real or integer whose scale is 1e-60 cannot be moved by any step (spaces built that way show exactly where fresh options start)"],
        suites: vec![
            suite("lineage", 12000, 400000, lineage),
            suite("population", 3000, 80000, population),
            suite("starts", 40, 1000, starts),
            suite("runs", 4000, 120000, runs),
            suite("keys", 1200, 40000, keys),
        ],
    }
}
