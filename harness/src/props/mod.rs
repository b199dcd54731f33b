pub use crate::gencfg::*;
pub use crate::oracle;
pub use crate::report::*;
pub use crate::sim::{self, Cfg, Trace};

pub mod c01;
pub mod c07;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c16;
pub mod c17;
pub mod cli;
pub mod inproc;
pub mod simprops;

/// one simulated run; returns it for further checks
pub fn sim_run(c: &mut Case, cfg: &Cfg) -> R<Trace> {
    c.note = format!("in run {}", describe(cfg));
    let tr = sim::run(cfg);
    let d = describe(cfg);
    c.sample(|| serde_json::json!({"config": d, "run": tr.summary()}));
    c.count("evaluations_observed", tr.recs.len() as u64);
    c.count("accepted", tr.values().len() as u64);
    c.count("rejected", tr.rejected() as u64);
    c.count("failures", tr.failures().len() as u64);
    c.count("abandoned", tr.recs.iter().filter(|r| r.dropped.is_some()).count() as u64);
    c.count("aborts_seen", tr.recs.iter().filter(|r| r.abort_seen.is_some()).count() as u64);
    c.count("quiescent_points", tr.quiets.len() as u64);
    c.count("report_items", tr.items.len() as u64);
    c.max("in_flight", tr.max_in_flight as u64);
    let end = match &tr.end {
        sim::End::Ok { .. } => "ok".to_string(),
        sim::End::Err(k, _) => format!("err_{k}"),
        sim::End::Deadlock(_) => "deadlock".into(),
    };
    c.count(&format!("end_{end}"), 1);
    if !tr.recs.is_empty() {
        c.distinct(tr.interleaving());
    }
    Ok(tr)
}

pub fn judge(cfg: &Cfg, tr: &Trace, f: fn(&Cfg, &Trace) -> R) -> R {
    oracle::no_hang(tr).and_then(|_| f(cfg, tr)).map_err(|v| Viol { msg: format!("{}\n  in run {}", v.msg, describe(cfg)), ..v })
}

pub fn sim_case(c: &mut Case, focus: Focus, f: fn(&Cfg, &Trace) -> R) -> R {
    let cfg = gen_cfg(&mut c.rng, focus);
    let tr = sim_run(c, &cfg)?;
    judge(&cfg, &tr, f)
}

const SIM_RULE: &str = "distinct interleavings (order of starts, aborts, returns, drops and terminate requests) of simulated runs in which at least one evaluation started";
const SIM_ASSUME: &[&str] = &["the simulated objective function and scheduler only do what a real executor could do: arbitrary completion order, delayed report consumer, terminate commands at any scheduling point"];

pub fn all() -> Vec<Prop> {
    let sim = |id: &'static str, suites: Vec<Suite>| Prop { id, rule: SIM_RULE, assumptions: SIM_ASSUME, suites };
    vec![
        c01::prop(),
        c07::prop(),
        c09::prop(),
        c10::prop(),
        c11::prop(),
        c12::prop(),
        c13::prop(),
        c16::prop(),
        c17::prop(),
        sim("C02", simprops::c02::suites()),
        sim("C03", simprops::c03::suites()),
        sim("C04", simprops::c04::suites()),
        sim("C05", simprops::c05::suites()),
        sim("C06", simprops::c06::suites()),
        sim("C08", simprops::c08::suites()),
        sim("C14", simprops::c14::suites()),
        sim("C15", simprops::c15::suites()),
    ]
}
