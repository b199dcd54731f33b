//! Runs are reproducible: the same inputs and the same completion order give the same trace, again in the
//! same thread, in another thread, in another process, with other timing.
use super::*;
use crate::model::{gen_bounded, Gen};
use crate::oracle::same_trace;
use crate::sim::{Order, Term};
use rand::rngs::StdRng;
use rand::Rng;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

/// A terminate command that races with results makes the completion order itself a matter of chance;
/// keep to runs whose inputs determine the order of events.
pub fn no_races(r: &mut StdRng, cfg: &mut Cfg) {
    if matches!(cfg.term, Term::WithRelease(_) | Term::BeforeStart) {
        cfg.term = if r.gen() { Term::Never } else { Term::Quiet(r.gen_range(0..60)) };
    }
    if cfg.order == Order::Immediate {
        cfg.term = Term::Never;
        cfg.budget = Some(cfg.budget.unwrap_or(150).min(cfg.backstop - 1));
    }
    if cfg.order == Order::Immediate && cfg.m.weight() > 12 {
        cfg.order = Order::Fifo; // big parameter sets may need to be stopped
    }
}

fn gen(r: &mut StdRng, idx: u64) -> Cfg {
    let focus = match idx % 8 {
        0 => Focus::Long,
        1 => Focus::Fail,
        2 => Focus::Target,
        3 => Focus::Term,
        _ => Focus::Any,
    };
    let mut cfg = gen_cfg(r, focus);
    no_races(r, &mut cfg);
    cfg
}

fn cmp(cfg: &Cfg, a: &Trace, b: &Trace, what: &str) -> R {
    same_trace(a, b).map_err(|v| Viol { msg: format!("{what}: {}\n  in run {}", v.msg, describe(cfg)), ..v })
}

fn again(c: &mut Case) -> R {
    let mut cfg = gen(&mut c.rng, c.idx);
    let a = sim_run(c, &cfg)?;
    let b = sim_run(c, &cfg)?;
    cmp(&cfg, &a, &b, "two runs in one process differ")?;
    // the consumer of the detailed report must not matter
    cfg.chan_cap = if cfg.chan_cap == 256 { 0 } else { 256 };
    cfg.lazy_drain = !cfg.lazy_drain;
    if cfg.order != Order::Immediate {
        let b = sim_run(c, &cfg)?;
        cmp(&cfg, &a, &b, "two runs that differ in how fast the report is consumed differ")?;
    }
    c.count("pairs_compared", 2);
    Ok(())
}

fn threads(c: &mut Case) -> R {
    let cfg = gen(&mut c.rng, c.idx);
    let n = 4;
    let traces: Vec<Trace> = std::thread::scope(|s| {
        let cfg = &cfg;
        let hs: Vec<_> = (0..n).map(|i| std::thread::Builder::new().name(format!("case-t{i}")).spawn_scoped(s, move || sim::run(cfg)).unwrap()).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    for t in &traces[1..] {
        cmp(&cfg, &traces[0], t, "two runs in two threads differ")?;
    }
    c.count("evaluations_observed", traces.iter().map(|t| t.recs.len() as u64).sum());
    c.count("pairs_compared", n as u64 - 1);
    c.distinct(traces[0].interleaving());
    Ok(())
}

fn timing(c: &mut Case) -> R {
    let mut cfg = gen(&mut c.rng, c.idx);
    cfg.budget = Some(cfg.budget.unwrap_or(100).min(150));
    let a = sim_run(c, &cfg)?;
    cfg.jitter_us = *[200, 2000, 5000][c.idx as usize % 3..].first().unwrap();
    let b = sim_run(c, &cfg)?;
    cmp(&cfg, &a, &b, "two runs with different timing differ")?;
    c.count("pairs_compared", 1);
    Ok(())
}

/// pauses of up to two seconds while evaluations are in progress
fn slow(c: &mut Case) -> R {
    let mut cfg = gen(&mut c.rng, c.idx);
    cfg.budget = Some(cfg.budget.unwrap_or(100).min(120));
    let a = sim_run(c, &cfg)?;
    cfg.jitter_us = 2_000_000;
    let b = sim_run(c, &cfg)?;
    cmp(&cfg, &a, &b, "a run differs from the same run with slow evaluations")?;
    c.count("pairs_compared", 1);
    Ok(())
}

/// thousands of evaluations, twice
fn long(c: &mut Case) -> R {
    use rand::seq::SliceRandom;
    let mut cfg = gen_cfg(&mut c.rng, Focus::Long);
    no_races(&mut c.rng, &mut cfg);
    let mag = any_mag(&mut c.rng);
    let g = Gen { wide: 0.0, ..Gen::new(*[0, 1, 2].choose(&mut c.rng).unwrap(), mag) };
    cfg.m = gen_bounded(&mut c.rng, &g, 4);
    cfg.spec = cambrian::spec::Spec(cfg.m.to_spec());
    cfg.guess = None;
    cfg.budget = Some(10f64.powf(c.rng.gen_range(3.0..if c.tier == Tier::Thorough { 4.6 } else { 4.0 })) as usize);
    cfg.backstop = usize::MAX;
    cfg.term = Term::Never;
    cfg.target = None;
    cfg.fail.clear();
    cfg.nonfinite.clear();
    let a = sim_run(c, &cfg)?;
    let b = std::thread::scope(|s| s.spawn(|| sim::run(&cfg)).join().unwrap_or_else(|e| std::panic::resume_unwind(e)));
    cmp(&cfg, &a, &b, "two long runs differ")?;
    c.max("evaluations_in_a_run", a.recs.len() as u64);
    c.count("pairs_compared", 1);
    Ok(())
}

/// one line per evaluation, one for the end
pub fn trace_text(t: &Trace) -> String {
    let mut s = String::new();
    for r in &t.recs {
        s += &format!("{} {} {} {}\n", r.n, r.id, r.seed, r.value);
    }
    match &t.end {
        sim::End::Ok { best, value, completed, rejected, .. } => s += &format!("ok {best} {value} {completed} {rejected}\n"),
        sim::End::Err(k, m) => s += &format!("err {k} {m}\n"),
        sim::End::Deadlock(m) => s += &format!("hang {m}\n"),
    }
    s
}

const BATCH: u64 = 40;

fn batch_cfg(seed: u64, i: u64) -> Cfg {
    let mut r: StdRng = rand::SeedableRng::seed_from_u64(seed.wrapping_mul(1000).wrapping_add(i));
    gen(&mut r, i)
}

/// `cverif trace SEED`: the traces of a batch of runs
pub fn trace_main(seed: u64) {
    let mut o = std::io::stdout().lock();
    // use some memory first, so that addresses differ as well
    let junk: Vec<Vec<u8>> = (0..seed % 7).map(|i| vec![1u8; 1000 + i as usize * 333]).collect();
    let order: Vec<u64> = if std::env::var_os("CVERIF_REVERSED").is_some() { (0..BATCH).rev().collect() } else { (0..BATCH).collect() };
    for i in order {
        write!(o, "== {i}\n{}", trace_text(&sim::run(&batch_cfg(seed, i)))).unwrap();
    }
    drop(junk);
}

fn processes(c: &mut Case) -> R {
    let seed: u64 = c.rng.gen_range(0..1 << 40);
    let spawn = |k: usize| {
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.arg("trace").arg(seed.to_string()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_clear();
        cmd.current_dir(if k == 0 { "/" } else { "/tmp" });
        if k == 1 {
            for i in 0..50 {
                cmd.env(format!("VAR{i}"), "x".repeat(i * 37 % 100));
            }
            crate::proc::foreign_env(&mut cmd, seed);
            cmd.env("CVERIF_REVERSED", "1");
        }
        cmd.spawn().expect("spawn cverif trace")
    };
    let mut kids = vec![spawn(0), spawn(1)];
    let mut outs = vec![];
    for k in &mut kids {
        let mut s = String::new();
        k.stdout.take().unwrap().read_to_string(&mut s).unwrap();
        let mut e = String::new();
        k.stderr.take().unwrap().read_to_string(&mut e).unwrap();
        let st = k.wait().unwrap();
        crate::ensure!(st.success(), "the process of a batch of runs (seed {seed}) ends with {st}: {}", e.chars().take(1000).collect::<String>());
        outs.push(split(&s));
    }
    for i in 0..BATCH {
        c.note = format!("batch {seed}, run {i}");
        let cfg = batch_cfg(seed, i);
        let here = sim_run(c, &cfg)?;
        let t = trace_text(&here);
        for (k, o) in outs.iter().enumerate() {
            let other = o.get(&i).map(String::as_str).unwrap_or("");
            if other != t {
                let d = t.lines().zip(other.lines()).find(|(a, b)| a != b);
                crate::viol!("a run in this process differs from the same run in process {k}: {:?} ({} / {} lines)\n  in run {}", d, t.lines().count(), other.lines().count(), describe(&cfg));
            }
        }
        c.count("pairs_compared", 2);
    }
    Ok(())
}

fn split(s: &str) -> std::collections::BTreeMap<u64, String> {
    let mut m = std::collections::BTreeMap::new();
    for p in s.split("== ").skip(1) {
        if let Some((n, t)) = p.split_once('\n') {
            m.insert(n.parse().unwrap_or(u64::MAX), t.to_string());
        }
    }
    m
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "distinct interleavings of runs that were repeated and compared evaluation by evaluation",
        assumptions: &["runs in which a terminate command races with a result are left out: their completion order is not an input"],
        suites: vec![
            suite("again", 4000, 100000, again),
            suite("threads", 600, 20000, threads),
            suite("timing", 300, 6000, timing).secs(20.0, 200.0),
            suite("long", 40, 600, long),
            suite("slow", 48, 600, slow).threads(16),
            suite("processes", 16, 400, processes).threads(3),
            suite("cli_twice", 240, 4000, cli::twice).threads(12),
            suite("sync_launch", 500, 15000, inproc::c09).threads(6),
        ],
    }
}
