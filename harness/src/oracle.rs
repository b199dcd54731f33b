//! Offline checkers over recorded traces, one per property.
use crate::model::same_json;
use crate::report::R;
use crate::sim::*;
use crate::{ensure, viol};
use std::collections::{BTreeMap, HashMap, HashSet};

pub fn no_hang(tr: &Trace) -> R {
    if let End::Deadlock(m) = &tr.end {
        viol!("the run hangs: {m}");
    }
    Ok(())
}

pub fn c01(cfg: &Cfg, tr: &Trace) -> R {
    for r in &tr.recs {
        if let Err(e) = cfg.m.conforms(&r.value) {
            viol!("evaluation {} (individual {}) got a non-conforming parameter set: {e}\n  value {}\n  spec {}", r.n, r.id, r.value, cfg.m.yaml());
        }
    }
    if let End::Ok { value, .. } = &tr.end {
        if let Err(e) = cfg.m.conforms(value) {
            viol!("reported best-seen value does not conform: {e}\n  value {value}\n  spec {}", cfg.m.yaml());
        }
    }
    Ok(())
}

pub fn mean_close(a: f64, vals: &[f64]) -> bool {
    let n = vals.len() as f64;
    let mean = vals.iter().map(|v| v / n).sum::<f64>();
    let mag = vals.iter().map(|v| v.abs() / n).sum::<f64>();
    (a - mean).abs() <= 1e-12 * mag + 1e-300
}

pub fn c02(cfg: &Cfg, tr: &Trace) -> R {
    let vals = tr.values();
    match &tr.end {
        End::Ok { best, value, .. } => {
            if cfg.sample == 1 {
                ensure!(
                    vals.iter().any(|(r, v)| v == best && same_json(&r.value, value)),
                    "reported best-seen ({best}, {value}) was never evaluated with that result"
                );
                if let Some((r, v)) = vals.iter().min_by(|a, b| a.1.partial_cmp(&b.1).unwrap()) {
                    ensure!(*v >= *best, "reported best {best} is not the minimum: evaluation {} returned {v} ({} accepted)", r.n, vals.len());
                }
            } else {
                let mut by: BTreeMap<usize, Vec<(&Rec, f64)>> = BTreeMap::new();
                for (r, v) in &vals {
                    by.entry(r.id).or_default().push((r, *v));
                }
                let ok = by.values().any(|l| {
                    l.len() == cfg.sample && same_json(&l[0].0.value, value) && mean_close(*best, &l.iter().map(|x| x.1).collect::<Vec<_>>())
                });
                ensure!(ok, "reported best-seen ({best}, {value}) is not the mean of exactly {} returns of one individual", cfg.sample);
            }
        }
        End::Err(k, _) if k == "NoIndividuals" => {
            ensure!(cfg.sample != 1 || vals.is_empty(), "ended with 'no individuals' although {} evaluations were accepted", vals.len());
        }
        _ => {}
    }
    Ok(())
}

fn target_hit<'a>(cfg: &Cfg, tr: &'a Trace) -> Option<&'a Rec> {
    let t = cfg.target?;
    if cfg.sample == 1 {
        tr.values().into_iter().find(|(_, v)| *v <= t).map(|x| x.0)
    } else {
        let mut by: HashMap<usize, Vec<f64>> = HashMap::new();
        for (r, v) in tr.values() {
            let l = by.entry(r.id).or_default();
            l.push(v);
            if l.len() == cfg.sample && l.iter().sum::<f64>() / cfg.sample as f64 <= t {
                return Some(r);
            }
        }
        None
    }
}

/// With re-sampling, whether the target counts as reached can hinge on rounding of the mean or on an
/// individual that dropped out of the population; such runs are not judged on target handling.
fn target_unclear(cfg: &Cfg, tr: &Trace) -> bool {
    let Some(t) = cfg.target else { return false };
    if cfg.sample == 1 {
        return false;
    }
    let mut by: HashMap<usize, Vec<f64>> = HashMap::new();
    for (r, v) in tr.values() {
        by.entry(r.id).or_default().push(v);
    }
    by.len() > 95
        || by.values().filter(|l| l.len() == cfg.sample).any(|l| {
            let mean = l.iter().sum::<f64>() / l.len() as f64;
            let mag = l.iter().map(|x| x.abs()).fold(t.abs(), f64::max);
            mean != t && (mean - t).abs() <= 1e-9 * mag
        })
}

pub fn c03(cfg: &Cfg, tr: &Trace) -> R {
    let Some(n) = cfg.budget else { return Ok(()) };
    ensure!(tr.recs.len() <= n, "{} evaluations started with a budget of {n} (concurrency {})", tr.recs.len(), cfg.conc);
    let clean = tr.failures().is_empty() && tr.terms.is_empty() && cfg.hang_up.is_none() && cfg.target.is_none();
    if !clean && !(tr.failures().is_empty() && tr.terms.is_empty() && cfg.hang_up.is_none() && cfg.sample == 1 && target_hit(cfg, tr).is_none()) {
        return Ok(());
    }
    ensure!(tr.recs.len() == n, "budget {n} not used up: only {} evaluations started, end {:?}", tr.recs.len(), tr.end);
    if let End::Ok { completed, rejected, .. } = &tr.end {
        ensure!(completed + rejected == n, "completed {completed} + rejected {rejected} != budget {n}");
    }
    ensure!(tr.recs.iter().all(|r| r.ret.is_some()), "the run ended before all {n} evaluations had ended");
    Ok(())
}

fn honouring(m: AbortMode) -> bool {
    matches!(m, AbortMode::Honour | AbortMode::HonourWithValue | AbortMode::HonourWithError)
}

pub fn c04(cfg: &Cfg, tr: &Trace) -> R {
    if target_unclear(cfg, tr) {
        return Ok(());
    }
    let first_fail = tr.failures().first().and_then(|r| r.ret).unwrap_or(u64::MAX);
    let hit = target_hit(cfg, tr).filter(|r| r.ret.unwrap() < first_fail);
    if let Some(h) = hit {
        let t = h.ret.unwrap();
        if let Some(r) = tr.recs.iter().find(|r| r.start > t) {
            viol!("evaluation {} started after evaluation {} had reached the target {:?}", r.n, h.n, cfg.target);
        }
        match &tr.end {
            End::Ok { best, .. } => ensure!(*best <= cfg.target.unwrap(), "target-terminated run reports {best} > target {:?}", cfg.target),
            e => viol!("target reached by evaluation {} but the run ended with {e:?}", h.n),
        }
        for q in tr.quiets.iter().filter(|q| q.at > t) {
            if q.in_flight.iter().all(|n| honouring(tr.recs[*n].mode)) {
                viol!("after the target was reached the run waits for {} evaluations that honour the abort", q.in_flight.len());
            }
        }
        return Ok(());
    }
    let Some(term) = tr.terms.first().copied() else { return Ok(()) };
    // failures before the request are C06's business; the "nothing starts" half holds all the same
    if let Some(t) = tr.quiet_terms.first() {
        if let Some(r) = tr.recs.iter().find(|r| r.start > *t) {
            viol!("evaluation {} started after a terminate command had been delivered to the idle run", r.n);
        }
    }
    let seen = tr.recs.iter().filter_map(|r| r.abort_seen).min().unwrap_or(u64::MAX);
    for r in &tr.recs {
        ensure!(!r.abort_pending, "evaluation {} was started although the abort request had already been broadcast", r.n);
        ensure!(r.start < seen, "evaluation {} started after another evaluation had been asked to abort", r.n);
    }
    if first_fail < u64::MAX && first_fail < seen {
        return Ok(());
    }
    if target_hit(cfg, tr).is_some() {
        // a result that reaches the target while draining may end the run at once
        return Ok(());
    }
    if let Some(t) = tr.quiet_terms.first() {
        for r in tr.recs.iter().filter(|r| r.start < *t && r.ret.map_or(true, |x| x > *t)) {
            ensure!(r.abort_seen.is_some(), "evaluation {} was in flight at the terminate request but was never asked to abort", r.n);
        }
    }
    for r in &tr.recs {
        ensure!(r.dropped.is_none(), "evaluation {} was abandoned by a terminated run instead of being awaited", r.n);
    }
    for q in tr.quiets.iter().filter(|q| q.at > term) {
        ensure!(
            q.in_flight.iter().any(|n| !honouring(tr.recs[*n].mode)),
            "after the terminate request the run does not return although nothing that ignores aborts is in flight ({} in flight)",
            q.in_flight.len()
        );
    }
    if cfg.sample == 1 && !tr.values().is_empty() {
        match &tr.end {
            End::Ok { best, .. } => {
                let m = tr.values().iter().map(|x| x.1).fold(f64::INFINITY, f64::min);
                ensure!(*best <= m, "terminated run reports {best} but {m} had been seen");
            }
            e => viol!("terminated run with {} accepted evaluations ended with {e:?}", tr.values().len()),
        }
    }
    Ok(())
}

pub fn c05(cfg: &Cfg, tr: &Trace) -> R {
    if target_unclear(cfg, tr) {
        return Ok(());
    }
    ensure!(tr.max_in_flight <= cfg.conc, "{} evaluations in progress at once, num_concurrent is {}", tr.max_in_flight, cfg.conc);
    let stop = [
        tr.terms.first().copied(),
        tr.failures().first().and_then(|r| r.ret),
        target_hit(cfg, tr).and_then(|r| r.ret),
    ]
    .into_iter()
    .flatten()
    .min()
    .unwrap_or(u64::MAX);
    for q in tr.quiets.iter().filter(|q| q.at < stop) {
        let want = cfg.budget.map_or(cfg.conc, |n| cfg.conc.min(n.saturating_sub(q.ended)));
        ensure!(
            q.in_flight.len() == want,
            "{} evaluations in progress after {} ended, expected {want} (num_concurrent {}, budget {:?})",
            q.in_flight.len(), q.ended, cfg.conc, cfg.budget
        );
        let ids: HashSet<usize> = q.in_flight.iter().map(|n| tr.recs[*n].id).collect();
        ensure!(ids.len() == q.in_flight.len(), "an individual is being evaluated twice at the same time");
    }
    let mut by: BTreeMap<usize, Vec<&Rec>> = BTreeMap::new();
    for r in &tr.recs {
        by.entry(r.id).or_default().push(r);
    }
    for (id, l) in by {
        for w in l.windows(2) {
            let end = w[0].ret.or(w[0].dropped).unwrap_or(u64::MAX);
            ensure!(end < w[1].start, "individual {id} evaluated twice at the same time (evaluations {} and {})", w[0].n, w[1].n);
        }
    }
    Ok(())
}

pub fn c06(cfg: &Cfg, tr: &Trace) -> R {
    if target_unclear(cfg, tr) {
        return Ok(());
    }
    let fails = tr.failures();
    let Some(f) = fails.first() else { return Ok(()) };
    let t = f.ret.unwrap();
    if tr.terms.first().map_or(false, |x| *x < t) || target_hit(cfg, tr).and_then(|r| r.ret).map_or(false, |x| x < t) {
        return Ok(());
    }
    match (&tr.end, f.out.as_ref().unwrap()) {
        (End::Err(k, msg), Out::Fail(m)) => {
            ensure!(k == "Io" && msg == m, "the run reports {k}({msg}) instead of the first failure '{m}'")
        }
        (End::Err(k, msg), Out::NonFinite(v)) => {
            ensure!(k == "ObjFuncValMustBeFinite", "the run reports {k}({msg}) although the first failure was the non-finite value {v}")
        }
        (e, _) => viol!("evaluation {} failed ({:?}) but the run ended with {e:?}", f.n, f.out),
    }
    for r in &tr.recs {
        ensure!(r.start < t, "evaluation {} started after the failure of evaluation {}", r.n, f.n);
        if r.n != f.n && r.ret.map_or(true, |x| x > t) {
            ensure!(r.abort_seen.is_some(), "evaluation {} was in flight when evaluation {} failed but was never told to abort", r.n, f.n);
            ensure!(r.ret.is_some(), "the run returned while evaluation {} was still in flight", r.n);
        }
    }
    for q in tr.quiets.iter().filter(|q| q.at > t) {
        ensure!(
            q.in_flight.iter().any(|n| !honouring(tr.recs[*n].mode)),
            "after the failure the run does not return although nothing that ignores aborts is in flight"
        );
    }
    Ok(())
}

pub fn c08(cfg: &Cfg, tr: &Trace) -> R {
    let mut seeds: HashMap<u64, usize> = HashMap::new();
    for r in &tr.recs {
        if let Some(o) = seeds.insert(r.seed, r.n) {
            viol!("evaluations {o} and {} got the same seed {}", r.n, r.seed);
        }
    }
    let mut by: BTreeMap<usize, Vec<&Rec>> = BTreeMap::new();
    for r in &tr.recs {
        by.entry(r.id).or_default().push(r);
    }
    for (id, l) in &by {
        ensure!(l.len() <= cfg.sample, "individual {id} evaluated {} times, sample size {}", l.len(), cfg.sample);
        for r in l {
            ensure!(same_json(&r.value, &l[0].value), "individual {id} seen with two different parameter sets:\n {}\n {}", l[0].value, r.value);
        }
    }
    if let Some(f) = tr.recs.first() {
        let want = match &cfg.guess {
            Some(g) => g.clone(),
            None => cfg.m.init_json(),
        };
        ensure!(same_json(&f.value, &want), "first individual is {} instead of the initial value {want}", f.value);
    }
    Ok(())
}

pub fn check_item(cfg: &Cfg, r: &Rec, i: &Item) -> R {
    let want = match r.out {
        Some(Out::Val(v)) => Some(v),
        _ => None,
    };
    ensure!(i.id == r.id && same_json(&i.value, &r.value), "report record with seed {} carries id {} / {} but evaluation was id {} / {}", i.seed, i.id, i.value, r.id, r.value);
    ensure!(i.obj.map(f64::to_bits) == want.map(f64::to_bits), "report record with seed {} carries result {:?}, the evaluation returned {want:?}", i.seed, i.obj);
    ensure!(i.eval_s >= 0.0 && i.eval_s < 3600.0, "report record with evaluation time {}", i.eval_s);
    if let Some(p) = i.params {
        for (k, x) in p.iter().take(3).enumerate() {
            ensure!((0.0..=1.0).contains(x), "adaptive probability #{k} is {x}");
        }
        ensure!(p[3].is_finite() && p[3] > 0.0, "mutation scale is {}", p[3]);
    }
    check_csv(&i.csv, r.id, r.seed, &r.value, want)?;
    let _ = cfg;
    Ok(())
}

/// individualId;evalTime;source;cp;sp;mp;ms;inputVal;seed;objFuncVal
pub fn check_csv(row: &str, id: usize, seed: u64, value: &impl std::fmt::Display, obj: Option<f64>) -> R {
    let row = row.strip_suffix('\n').unwrap_or(row);
    let h: Vec<&str> = row.splitn(8, ';').collect();
    ensure!(h.len() == 8, "malformed detailed report row {row:?}");
    let t: Vec<&str> = h[7].rsplitn(3, ';').collect();
    ensure!(t.len() == 3, "malformed detailed report row {row:?}");
    let (objs, seeds, val) = (t[0], t[1], t[2]);
    ensure!(h[0] == id.to_string(), "detailed report row has individual id {} instead of {id}", h[0]);
    ensure!(seeds == seed.to_string(), "detailed report row has seed {seeds} instead of {seed}");
    ensure!(val == value.to_string(), "detailed report row has parameter set {val} instead of {value}");
    match obj {
        None => ensure!(objs.is_empty(), "detailed report row has result {objs:?} for a rejected evaluation"),
        Some(v) => ensure!(objs.parse::<f64>().ok().map_or(false, |x| x == v), "detailed report row has result {objs:?} instead of {v}"),
    }
    ensure!(h[1].parse::<f64>().map_or(false, |x| x >= 0.0), "detailed report row has evaluation time {:?}", h[1]);
    if !h[2].is_empty() {
        for k in 3..6 {
            ensure!(h[k].parse::<f64>().map_or(false, |x| (0.0..=1.0).contains(&x)), "detailed report row has probability {:?}", h[k]);
        }
        ensure!(h[6].parse::<f64>().map_or(false, |x| x.is_finite() && x > 0.0), "detailed report row has mutation scale {:?}", h[6]);
    } else {
        ensure!(h[3..7].iter().all(|x| x.is_empty()), "detailed report row {row:?}");
    }
    Ok(())
}

pub fn c14(cfg: &Cfg, tr: &Trace) -> R {
    if let End::Ok { completed, rejected, text, best, .. } = &tr.end {
        let (a, b) = (tr.values().len(), tr.rejected());
        ensure!(*completed == a && *rejected == b, "report counts {completed} completed / {rejected} rejected, evaluations: {a} / {b}");
        ensure!(text.contains(&format!("evaluations: {completed}\n")) && text.contains(&format!("evaluations: {rejected}\n")) && text.contains(&format!("value: {best}\n")),
            "summary text disagrees with the report: {text}");
    }
    if cfg.hang_up.is_some() || matches!(tr.end, End::Deadlock(_)) {
        return Ok(());
    }
    let mut by_seed: HashMap<u64, &Rec> = HashMap::new();
    let mut n = 0;
    for r in &tr.recs {
        if matches!(r.out, Some(Out::Val(_)) | Some(Out::Reject)) {
            by_seed.insert(r.seed, r);
            n += 1;
        }
    }
    let mut seen = HashSet::new();
    for i in &tr.items {
        ensure!(seen.insert(i.seed), "two detailed report records with seed {}", i.seed);
        match by_seed.get(&i.seed) {
            Some(r) => check_item(cfg, r, i)?,
            None => viol!("detailed report record with seed {} belongs to no processed evaluation", i.seed),
        }
    }
    ensure!(tr.items.len() == n, "{} detailed report records for {n} processed evaluations", tr.items.len());
    Ok(())
}

pub fn same_trace(a: &Trace, b: &Trace) -> R {
    for (x, y) in a.recs.iter().zip(&b.recs) {
        ensure!(
            x.id == y.id && x.seed == y.seed && same_json(&x.value, &y.value),
            "evaluation {}: (id {}, seed {}, {}) in one run, (id {}, seed {}, {}) in the other", x.n, x.id, x.seed, x.value, y.id, y.seed, y.value
        );
    }
    ensure!(a.recs.len() == b.recs.len(), "{} evaluations in one run, {} in the other", a.recs.len(), b.recs.len());
    match (&a.end, &b.end) {
        (End::Ok { best: p, value: v, completed: c, rejected: r, .. }, End::Ok { best: q, value: w, completed: d, rejected: s, .. }) => {
            ensure!(p.to_bits() == q.to_bits() && same_json(v, w) && c == d && r == s, "final reports differ: ({p}, {v}, {c}, {r}) vs ({q}, {w}, {d}, {s})");
        }
        (End::Err(k, m), End::Err(l, n)) => ensure!(k == l && m == n, "different errors: {k}/{m} vs {l}/{n}"),
        (x, y) => viol!("different ends: {x:?} vs {y:?}"),
    }
    Ok(())
}
