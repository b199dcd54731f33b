//! What the demonstrations share: a small in-process runner that records every evaluation.
#![allow(dead_code)]
use async_trait::async_trait;
use cambrian::crossover::Crossover;
use cambrian::error::Error;
use cambrian::meta::{AlgoConfig, AsyncObjectiveFunction, CrossoverParams, MutationParams};
use cambrian::mutation;
use cambrian::result::FinalReport;
use cambrian::spec::Spec;
use cambrian::sync_launch::{self, DetailedReportingFileInfo};
use cambrian::termination::TerminationCriterion;
use cambrian::value::Value;
use rand::rngs::StdRng;
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Ev {
    pub n: usize,
    pub id: usize,
    pub seed: u64,
    pub value: serde_json::Value,
    /// evaluations in progress when this one started, itself included
    pub running: usize,
}

pub enum Act {
    Val(f64),
    Reject,
    Fail,
    /// Waits for the abort, then reports "rejected".
    Hold,
    /// Ignores the abort, takes so many milliseconds, then reports.
    Late(u64, f64),
}

#[derive(Default)]
struct State {
    evals: Vec<Ev>,
    running: usize,
}

struct Fun<F> {
    f: F,
    state: Arc<Mutex<State>>,
}

#[async_trait]
impl<F: Fn(&Ev) -> Act + Sync> AsyncObjectiveFunction for Fun<F> {
    async fn evaluate(
        &self,
        value: serde_json::Value,
        mut abort: async_broadcast::Receiver<()>,
        seed: u64,
        id: usize,
    ) -> Result<Option<f64>, Error> {
        let act = {
            let mut state = self.state.lock().unwrap();
            state.running += 1;
            let ev = Ev { n: state.evals.len(), id, seed, value, running: state.running };
            state.evals.push(ev.clone());
            drop(state);
            (self.f)(&ev)
        };
        tokio::task::yield_now().await;
        let result = match act {
            Act::Val(val) => Ok(Some(val)),
            Act::Reject => Ok(None),
            Act::Fail => Err(Error::Io(std::io::Error::new(std::io::ErrorKind::Other, "demo failure"))),
            Act::Hold => {
                abort.recv().await.ok();
                Ok(None)
            }
            Act::Late(ms, val) => {
                tokio::time::sleep(Duration::from_millis(ms)).await;
                Ok(Some(val))
            }
        };
        self.state.lock().unwrap().running -= 1;
        result
    }
}

pub struct Cfg<'a> {
    pub sample: usize,
    pub conc: usize,
    pub n: Option<usize>,
    pub target: Option<f64>,
    pub after_ms: Option<u64>,
    pub guess: Option<serde_json::Value>,
    pub dir: Option<&'a Path>,
}

impl Default for Cfg<'_> {
    fn default() -> Self {
        Cfg { sample: 1, conc: 1, n: None, target: None, after_ms: None, guess: None, dir: None }
    }
}

pub fn spec(yaml: &str) -> Spec {
    cambrian::spec_util::from_yaml_str(yaml).expect("the demo's spec is valid")
}

pub fn run<F: Fn(&Ev) -> Act + Sync>(yaml: &str, cfg: Cfg, f: F) -> (Vec<Ev>, Result<FinalReport, Error>) {
    let state = Arc::new(Mutex::new(State::default()));
    let mut criteria = Vec::new();
    criteria.extend(cfg.n.map(TerminationCriterion::NumObjFuncEval));
    criteria.extend(cfg.target.map(TerminationCriterion::TargetObjFuncVal));
    criteria.extend(cfg.after_ms.map(|ms| TerminationCriterion::TerminateAfter(Duration::from_millis(ms))));
    let files = cfg.dir.map(|dir| DetailedReportingFileInfo {
        detailed_report_file_path: dir.join("detailed.csv"),
        best_seen_file_path: dir.join("best.json"),
    });
    let result = sync_launch::launch_with_async_obj_func(
        spec(yaml),
        Fun { f, state: state.clone() },
        AlgoConfig { individual_sample_size: cfg.sample, num_concurrent: cfg.conc },
        criteria,
        cfg.guess,
        false,
        files.as_ref(),
    );
    let evals = std::mem::take(&mut state.lock().unwrap().evals);
    (evals, result)
}

/// Direct access to mutation and recombination (the type of their path context is inferred).
pub trait Ops {
    fn mutate(&mut self, s: &Spec, v: &Value, prob: f64, scale: f64, r: &mut StdRng) -> Value;
    fn crossover(&mut self, s: &Spec, i: &[&Value], prob: f64, pressure: f64, r: &mut StdRng) -> Value;
}

struct O<X, P, FM, FC> {
    x: X,
    p: P,
    m: FM,
    c: FC,
}

impl<X, P, FM, FC> Ops for O<X, P, FM, FC>
where
    FM: Fn(&Spec, &Value, &MutationParams, &mut P, &mut StdRng) -> Value,
    FC: Fn(&X, &Spec, &[&Value], &CrossoverParams, &mut P, &mut StdRng) -> Value,
{
    fn mutate(&mut self, s: &Spec, v: &Value, prob: f64, scale: f64, r: &mut StdRng) -> Value {
        (self.m)(s, v, &MutationParams { mutation_prob: prob, mutation_scale: scale }, &mut self.p, r)
    }
    fn crossover(&mut self, s: &Spec, i: &[&Value], prob: f64, pressure: f64, r: &mut StdRng) -> Value {
        (self.c)(&self.x, s, i, &CrossoverParams { crossover_prob: prob, selection_pressure: pressure }, &mut self.p, r)
    }
}

fn build<X, P, FM, FC>(x: X, m: FM, c: FC) -> O<X, P, FM, FC>
where
    P: Default,
    FM: Fn(&Spec, &Value, &MutationParams, &mut P, &mut StdRng) -> Value,
    FC: Fn(&X, &Spec, &[&Value], &CrossoverParams, &mut P, &mut StdRng) -> Value,
{
    O { x, p: P::default(), m, c }
}

pub fn ops() -> impl Ops {
    build(Crossover::new(), mutation::mutate, |x, s, i, p, ctx, r| x.crossover(s, i, p, ctx, r))
}

pub fn val(s: &Spec, json: &str) -> Value {
    cambrian::value_util::from_json_str(json, s).expect("the demo's value is valid")
}

pub fn rng(seed: u64) -> StdRng {
    rand::SeedableRng::seed_from_u64(seed)
}
