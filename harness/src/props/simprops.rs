//! C02-C06, C08, C14, C15 over simulated runs (process-level suites are added by their own modules).
use super::*;

macro_rules! cases {
    ($f:path => $($name:ident $focus:expr),*) => { $(pub fn $name(c: &mut Case) -> R { sim_case(c, $focus, $f) })* };
}

/// few parameters, many generations: long histories of the adaptive parameters
pub fn adaptive_cfg(c: &mut Case) -> Cfg {
    use rand::seq::SliceRandom;
    use rand::Rng;
    let r = &mut c.rng;
    let mut cfg = gen_cfg(r, Focus::Long);
    let mag = any_mag(r);
    let mut g = crate::model::Gen::new(*[0, 0, 0, 1, 2].choose(r).unwrap(), mag);
    g.consts = false;
    cfg.m = crate::model::gen_bounded(r, &g, 3);
    if r.gen_bool(0.3) {
        let init = *[0.0, 1.0, -1e100, 1e-300].choose(r).unwrap();
        cfg.m = crate::model::M::Real { init, scale: *[1.0, 1e100, 1e-100].choose(r).unwrap(), min: None, max: if r.gen() { None } else { Some(1e100) } };
    }
    cfg.spec = cambrian::spec::Spec(cfg.m.to_spec());
    cfg.guess = None;
    cfg.budget = Some(if c.tier == Tier::Thorough { r.gen_range(5000..100000) } else { r.gen_range(1500..20000) });
    cfg.backstop = usize::MAX;
    cfg.strat = [sim::Strat::MagMax, sim::Strat::MagMax, sim::Strat::Square, sim::Strat::Square, sim::Strat::SizeMax, sim::Strat::RandExp, sim::Strat::Dec, sim::Strat::Dec, sim::Strat::Dec, sim::Strat::Const(0.0)].choose(r).unwrap().clone();
    cfg.sample = *[1, 1, 1, 2, 5].choose(r).unwrap();
    cfg.conc = *[1, 1, 3, 30].choose(r).unwrap();
    cfg.reject = *[0.0, 0.2].choose(r).unwrap();
    cfg.reject_all = false;
    cfg.fail.clear();
    cfg.nonfinite.clear();
    cfg.term = sim::Term::Never;
    cfg.target = None;
    cfg
}

/// hardly anything is ever accepted
fn sparse(c: &mut Case, f: fn(&Cfg, &Trace) -> R) -> R {
    use rand::seq::SliceRandom;
    use rand::Rng;
    let r = &mut c.rng;
    let focus = *[Focus::Budget, Focus::Budget, Focus::Target, Focus::Term].choose(r).unwrap();
    let mut cfg = gen_cfg(r, focus);
    let g = crate::model::Gen::new(*[0, 0, 1].choose(r).unwrap(), any_mag(r));
    cfg.m = crate::model::gen_bounded(r, &g, 4);
    cfg.spec = cambrian::spec::Spec(cfg.m.to_spec());
    cfg.guess = None;
    cfg.budget = Some((10f64.powf(r.gen_range(1.5..3.8))) as usize);
    cfg.backstop = usize::MAX;
    cfg.conc = *[1, 2, 7, 64].choose(r).unwrap();
    cfg.reject = 1.0 - 10f64.powf(-r.gen_range(1.0..4.0));
    cfg.reject_all = false;
    if r.gen() {
        // exactly one accepted evaluation, somewhere
        let n = cfg.budget.unwrap();
        cfg.accept_only = Some(Some(*[0, 1, n / 2, n - 1, r.gen_range(0..n)].choose(r).unwrap()));
    }
    cfg.fail.clear();
    cfg.nonfinite.clear();
    if let sim::Term::Quiet(k) | sim::Term::WithRelease(k) = &mut cfg.term {
        *k *= 10;
    }
    let tr = sim_run(c, &cfg)?;
    c.count("runs_with_one_accepted", (tr.values().len() == 1) as u64);
    judge(&cfg, &tr, f)
}

/// tens of thousands of evaluations
fn marathon(c: &mut Case, f: fn(&Cfg, &Trace) -> R) -> R {
    use rand::seq::SliceRandom;
    use rand::Rng;
    let r = &mut c.rng;
    let mut cfg = gen_cfg(r, Focus::Long);
    let g = crate::model::Gen { wide: 0.0, ..crate::model::Gen::new(*[0, 0, 1].choose(r).unwrap(), any_mag(r)) };
    cfg.m = crate::model::gen_bounded(r, &g, 2);
    cfg.spec = cambrian::spec::Spec(cfg.m.to_spec());
    cfg.guess = None;
    cfg.budget = Some(if c.idx % 4 == 0 { r.gen_range(66_000..75_000) } else { r.gen_range(3000..15000) } * if c.tier == Tier::Thorough { r.gen_range(1..4) } else { 1 });
    cfg.backstop = usize::MAX;
    cfg.sample = *[1, 1, 2, 5].choose(r).unwrap();
    if c.idx % 4 == 0 {
        cfg.sample = 1;
    }
    cfg.reject = *[0.0, 0.1, 0.5].choose(r).unwrap();
    cfg.reject_all = false;
    cfg.fail.clear();
    cfg.nonfinite.clear();
    cfg.term = sim::Term::Never;
    cfg.target = None;
    let tr = sim_run(c, &cfg)?;
    c.max("evaluations_in_a_run", tr.recs.len() as u64);
    judge(&cfg, &tr, f)
}

/// thousands of evaluations before the first failure, the target or the terminate request
fn late(c: &mut Case, focus: Focus, f: fn(&Cfg, &Trace) -> R) -> R {
    use rand::seq::SliceRandom;
    use rand::Rng;
    let r = &mut c.rng;
    let mut cfg = gen_cfg(r, focus);
    let g = crate::model::Gen { wide: 0.0, ..crate::model::Gen::new(*[0, 0, 1].choose(r).unwrap(), any_mag(r)) };
    cfg.m = crate::model::gen_bounded(r, &g, 2);
    cfg.spec = cambrian::spec::Spec(cfg.m.to_spec());
    cfg.guess = None;
    let most = if c.tier == Tier::Thorough { 5.3 } else { 4.9 };
    let n = 10f64.powf(r.gen_range(2.7..most)) as usize;
    cfg.budget = None;
    cfg.backstop = n * 2 + 1000;
    cfg.reject = *[0.0, 0.0, 0.1, 0.5].choose(r).unwrap();
    cfg.reject_all = false;
    cfg.fail.clear();
    cfg.nonfinite.clear();
    cfg.term = sim::Term::Never;
    cfg.target = None;
    match focus {
        Focus::Fail => {
            if r.gen_bool(0.7) {
                cfg.fail.push(n);
            } else {
                cfg.nonfinite.push((n, f64::NAN.to_bits()));
            }
            if r.gen() {
                cfg.fail.push(n + r.gen_range(0..3));
            }
        }
        Focus::Target => {
            cfg.strat = sim::Strat::Dec;
            cfg.sample = 1;
            cfg.target = Some(-(n as f64));
        }
        _ => cfg.term = if r.gen() { sim::Term::Quiet(n) } else { sim::Term::WithRelease(n) },
    }
    let tr = sim_run(c, &cfg)?;
    c.max("evaluations_in_a_run", tr.recs.len() as u64);
    judge(&cfg, &tr, f)
}

fn adaptive(c: &mut Case, f: fn(&Cfg, &Trace) -> R) -> R {
    let cfg = adaptive_cfg(c);
    let tr = sim_run(c, &cfg)?;
    let (mut lo, mut hi) = (0i32, 0i32);
    for i in &tr.items {
        if let Some(p) = i.params {
            lo = lo.max(-p[3].log10().floor() as i32);
            hi = hi.max(p[3].log10().ceil() as i32);
        }
    }
    c.max("mutation_scale_down_to_1e-", lo.max(0) as u64);
    c.max("mutation_scale_up_to_1e", hi.max(0) as u64);
    judge(&cfg, &tr, f)
}

pub mod c02 {
    use super::*;
    cases!(oracle::c02 => any Focus::Any, term Focus::Term, target Focus::Target, fail Focus::Fail, long Focus::Long);
    pub fn suites() -> Vec<Suite> {
        vec![
            suite("marathon", 24, 400, |c| super::marathon(c, oracle::c02)),
            suite("any", 12000, 400000, any),
            suite("terminated", 6000, 200000, term),
            suite("target", 6000, 200000, target),
            suite("failing", 3000, 100000, fail),
            suite("long", 600, 20000, long),
            suite("sparse", 500, 20000, |c| super::sparse(c, oracle::c02)),
            suite("cli_plain", 480, 8000, cli::plain_c02).threads(12),
            suite("cli_slow", 24, 48, cli::slow_c02).threads(24),
            suite("sync_launch", 1000, 30000, inproc::c02).threads(6),
        ]
    }
}

pub mod c03 {
    use super::*;
    cases!(oracle::c03 => budget Focus::Budget, term Focus::Term, target Focus::Target, fail Focus::Fail, long Focus::Long);
    pub fn suites() -> Vec<Suite> {
        vec![
            suite("marathon", 24, 400, |c| super::marathon(c, oracle::c03)),
            suite("budget", 15000, 500000, budget),
            suite("terminated", 3000, 100000, term),
            suite("target", 3000, 100000, target),
            suite("failing", 3000, 100000, fail),
            suite("long", 500, 20000, long),
            suite("sparse", 300, 10000, |c| super::sparse(c, oracle::c03)),
            suite("cli_plain", 480, 8000, cli::plain_c03).threads(12),
            suite("sync_launch", 1000, 30000, inproc::c03).threads(6),
        ]
    }
}

pub mod c04 {
    use super::*;
    cases!(oracle::c04 => term Focus::Term, target Focus::Target, any Focus::Any, fail Focus::Fail);
    pub fn suites() -> Vec<Suite> {
        vec![
            suite("terminated", 15000, 500000, term),
            suite("target", 10000, 300000, target),
            suite("any", 4000, 100000, any),
            suite("failing", 3000, 100000, fail),
            suite("late_stop", 40, 1500, |c| super::late(c, Focus::Term, oracle::c04)),
            suite("late_target", 24, 800, |c| super::late(c, Focus::Target, oracle::c04)),
            suite("cli_stops", 400, 6000, cli::stops).threads(16),
            suite("sync_launch", 1000, 30000, inproc::c04).threads(6),
        ]
    }
}

pub mod c05 {
    use super::*;
    cases!(oracle::c05 => any Focus::Any, budget Focus::Budget, term Focus::Term, long Focus::Long);
    pub fn suites() -> Vec<Suite> {
        vec![
            suite("marathon", 24, 400, |c| super::marathon(c, oracle::c05)),
            suite("any", 12000, 400000, any),
            suite("budget", 10000, 300000, budget),
            suite("terminated", 2000, 100000, term),
            suite("long", 600, 20000, long),
            suite("cli_barrier", 320, 6000, cli::barrier).threads(4),
            suite("cli_plain", 240, 6000, cli::plain_c05).threads(8),
            suite("sync_launch", 1000, 30000, inproc::c05).threads(6),
            suite("handover", 3000, 60000, inproc::handover).threads(6),
            suite("crowd", 40, 600, inproc::crowd).threads(2),
        ]
    }
}

pub mod c06 {
    use super::*;
    cases!(oracle::c06 => fail Focus::Fail, any Focus::Any);
    pub fn both(c: &mut Case) -> R {
        // failures together with a target, a budget or a terminate request
        let mut cfg = gen_cfg(&mut c.rng, Focus::Fail);
        let o = gen_cfg(&mut c.rng, if c.idx % 2 == 0 { Focus::Target } else { Focus::Term });
        cfg.term = o.term;
        if c.idx % 2 == 0 {
            cfg.target = o.target;
            cfg.strat = o.strat;
        }
        let tr = sim_run(c, &cfg)?;
        judge(&cfg, &tr, oracle::c06)
    }
    pub fn suites() -> Vec<Suite> {
        vec![
            suite("failing", 20000, 600000, fail),
            suite("mixed", 8000, 300000, both),
            suite("any", 2000, 50000, any),
            suite("late_failure", 40, 1500, |c| super::late(c, Focus::Fail, oracle::c06)),
            suite("cli_fails", 600, 8000, cli::fails).threads(16),
            suite("cli_unlaunchable", 150, 3000, c16::unlaunchable_later).threads(12),
            suite("sync_launch", 1000, 30000, inproc::c06).threads(6),
        ]
    }
}

pub mod c08 {
    use super::*;
    cases!(oracle::c08 => any Focus::Any, long Focus::Long, term Focus::Term);
    pub fn sampled(c: &mut Case) -> R {
        use rand::Rng;
        let mut cfg = gen_cfg(&mut c.rng, if c.idx % 4 == 0 { Focus::Long } else { Focus::Any });
        cfg.sample = c.rng.gen_range(2..8);
        let tr = sim_run(c, &cfg)?;
        judge(&cfg, &tr, oracle::c08)
    }
    pub fn suites() -> Vec<Suite> {
        vec![
            suite("marathon", 24, 400, |c| super::marathon(c, oracle::c08)),
            suite("any", 12000, 400000, any),
            suite("sampled", 6000, 200000, sampled),
            suite("long", 600, 20000, long),
            suite("terminated", 2000, 50000, term),
            suite("cli_plain", 480, 8000, cli::plain_c08).threads(12),
            suite("sync_launch", 1000, 30000, inproc::c08).threads(6),
        ]
    }
}

pub mod c14 {
    use super::*;
    cases!(oracle::c14 => any Focus::Any, long Focus::Long, term Focus::Term, target Focus::Target, fail Focus::Fail);
    pub fn suites() -> Vec<Suite> {
        vec![
            suite("marathon", 24, 400, |c| super::marathon(c, oracle::c14)),
            suite("any", 10000, 300000, any),
            suite("long", 800, 30000, long),
            suite("adaptive", 300, 5000, |c| super::adaptive(c, oracle::c14)),
            suite("sparse", 300, 10000, |c| super::sparse(c, oracle::c14)),
            suite("terminated", 4000, 100000, term),
            suite("target", 4000, 100000, target),
            suite("failing", 3000, 100000, fail),
            suite("cli_plain", 480, 8000, cli::plain_c14).threads(12),
            suite("cli_slow", 24, 48, cli::slow_c14).threads(24),
            suite("sync_launch", 1000, 30000, inproc::c14).threads(6),
        ]
    }
}

pub mod c15 {
    use super::*;
    fn ends(_cfg: &Cfg, tr: &Trace) -> R {
        // panics and hangs are caught by the runner; a run that ends must end with a report or a described error
        match &tr.end {
            sim::End::Ok { best, .. } => crate::ensure!(best.is_finite(), "report with best-seen objective {best}"),
            sim::End::Err(k, m) => crate::ensure!(!m.trim().is_empty(), "error {k} without a description"),
            sim::End::Deadlock(m) => crate::viol!("the run hangs: {m}"),
        }
        Ok(())
    }
    cases!(ends => any Focus::Any, long Focus::Long, fail Focus::Fail, term Focus::Term);
    /// extreme objective values and sample sizes
    pub fn extreme(c: &mut Case) -> R {
        use rand::seq::SliceRandom;
        use rand::Rng;
        let focus = if c.rng.gen_bool(0.3) { Focus::Long } else { Focus::Any };
        let mut cfg = gen_cfg(&mut c.rng, focus);
        cfg.strat = [
            sim::Strat::Extreme, sim::Strat::RandExp, sim::Strat::MagMax, sim::Strat::Zeroes, sim::Strat::Const(1e300), sim::Strat::Const(-1e300), sim::Strat::Const(-0.0),
        ]
        .choose(&mut c.rng)
        .unwrap()
        .clone();
        cfg.sample = *[1, 2, 3, 7, 50, 1000].choose(&mut c.rng).unwrap();
        cfg.fail.clear();
        cfg.nonfinite.clear();
        let tr = sim_run(c, &cfg)?;
        judge(&cfg, &tr, ends)
    }
    /// formats every message, as a real logger does
    struct Sink;
    thread_local!(static LINES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            let t = r.args().to_string();
            LINES.with(|l| l.set(l.get() + 1 + t.len() as u64 / 1_000_000_000));
        }
        fn flush(&self) {}
    }
    static SINK: Sink = Sink;

    /// the same run with logging off and on (one thread: the level is global)
    pub fn logging(c: &mut Case) -> R {
        use rand::seq::SliceRandom;
        log::set_logger(&SINK).ok();
        let focus = *[Focus::Any, Focus::Any, Focus::Long, Focus::Fail, Focus::Term, Focus::Target, Focus::Budget].choose(&mut c.rng).unwrap();
        let mut cfg = gen_cfg(&mut c.rng, focus);
        cfg.sample = *[1, 1, 2, 3, 9].choose(&mut c.rng).unwrap();
        // a random choice between a result and a terminate request that are both ready is not the log's doing
        super::c09::no_races(&mut c.rng, &mut cfg);
        let level = *[log::LevelFilter::Info, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace, log::LevelFilter::Warn].choose(&mut c.rng).unwrap();
        log::set_max_level(log::LevelFilter::Off);
        let a = sim_run(c, &cfg)?;
        log::set_max_level(level);
        LINES.with(|l| l.set(0));
        let b = sim_run(c, &cfg);
        log::set_max_level(log::LevelFilter::Off);
        let b = b?;
        c.count("log_messages", LINES.with(|l| l.get()));
        judge(&cfg, &b, ends)?;
        c.count("runs_compared", 1);
        oracle::same_trace(&a, &b).map_err(|v| Viol { msg: format!("logging ({level}) changes the run: {}\n  in run {}", v.msg, describe(&cfg)), ..v })
    }
    pub fn adaptive(c: &mut Case) -> R {
        super::adaptive(c, ends)
    }
    pub fn suites() -> Vec<Suite> {
        vec![
            suite("marathon", 24, 400, |c| super::marathon(c, ends)),
            suite("adaptive", 600, 10000, adaptive),
            suite("logging", 1500, 40000, logging).threads(1),
            suite("child_bytes", 300, 6000, cli::child_bytes).threads(12),
            suite("sync_launch", 1000, 30000, inproc::c15).threads(6),
            suite("extreme", 5000, 200000, extreme),
            suite("any", 5000, 200000, any),
            suite("long", 800, 30000, long),
            suite("failing", 2000, 50000, fail),
            suite("terminated", 2000, 50000, term),
        ]
    }
}
