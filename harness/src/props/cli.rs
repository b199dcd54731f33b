//! Process-level suites shared by several properties: the cambrian binary with scripted programs.
use super::*;
use crate::model::*;
use crate::proc::{self, *};
use crate::props::c11::exact_json;
use crate::{ensure, viol};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub fn threads(s: Suite) -> Suite {
    s.threads(12)
}

/// neither hangs nor panics nor dies of a signal
pub fn sane(r: &Run) -> R {
    ensure!(!r.hung, "cambrian did not return within {:.0} s; {} evaluations started, stderr: {}", r.wall, r.log.starts.len(), short(&r.stderr, 500));
    if let Some(s) = r.signal {
        viol!("cambrian died of signal {s}; stderr: {}", short(&r.stderr, 500));
    }
    ensure!(r.code != Some(101) && !r.stderr.contains("panicked at"), "cambrian panicked: {}", short(&r.stderr, 800));
    Ok(())
}

pub fn observe(c: &mut Case, r: &Run, d: &str) {
    c.note = d.to_string();
    c.count("child_processes_observed", r.log.starts.len() as u64);
    c.count("runs_of_the_binary", 1);
    c.count("descendants_observed", r.log.grand.len() as u64);
    c.count("report_rows", r.rows.len() as u64);
    if r.code != Some(0) {
        let last: String = r.stderr.trim().lines().last().unwrap_or("").trim().chars().filter(|c| !c.is_ascii_digit()).take(24).collect();
        c.count(&format!("error: {last}"), 1);
    }
    c.count(&format!("exit_{}", r.code.map_or("signal".to_string(), |x| x.to_string())), 1);
    let o: Vec<(u64, Option<u64>)> = r.log.starts.iter().map(|s| (s.seed().unwrap_or(0), s.end.map(|e| e - s.at))).collect();
    c.distinct((d.to_string(), o));
    let n = r.log.starts.len();
    let (w, code, rows) = (r.wall, r.code, r.rows.len());
    let first = r.log.starts.first().map(|s| s.argv.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>());
    let out = String::from_utf8_lossy(&r.stdout).to_string();
    c.sample(|| json!({"run": d, "children": n, "wall_s": w, "exit": code, "rows": rows, "first_argv": first, "stdout": short(&out, 400)}));
}

pub fn with<T>(d: &str, r: R<T>) -> R<T> {
    r.map_err(|v| Viol { msg: format!("{}\n  in {d}", v.msg), ..v })
}

// ------------------------------------------------------------------ plain runs

pub struct Plain {
    pub cli: Cli,
    pub m: M,
    pub conc: usize,
    pub n: usize,
    pub sample: usize,
    pub guess: Option<J>,
    pub modulus: u64,
    pub sub: f64,
    pub near: i64,
    pub reject: BTreeSet<u64>,
}

impl Plain {
    /// what the scripted program prints for this parameter set
    pub fn value_of(&self, json: &[u8]) -> f64 {
        let k = cobj_hash(json) % self.modulus;
        match self.near {
            0 => k as f64 / 8.0 - self.sub,
            s => s as f64 * format!("1.{k:015}").parse::<f64>().unwrap(),
        }
    }
    pub fn result_of(&self, s: &Start) -> Option<f64> {
        (!self.reject.contains(&s.n)).then(|| self.value_of(s.json()))
    }
}

pub fn cli_space(r: &mut StdRng, w: usize) -> M {
    let mut g = Gen::new(r.gen_range(0..4), if r.gen_bool(0.7) { Mag::Small } else { any_mag(r) });
    g.hostile_names = r.gen_bool(0.6);
    gen_bounded(r, &g, w)
}

pub fn plain(r: &mut StdRng) -> Plain {
    let m = cli_space(r, 25);
    let conc = *[1, 1, 2, 3, 5, 8].choose(r).unwrap();
    let sample = *[1, 1, 1, 1, 2, 3].choose(r).unwrap();
    let n = if sample > 1 { r.gen_range(1..100) } else { r.gen_range(1..40) };
    let modulus = *[1u64, 3, 20, 1000].choose(r).unwrap();
    let sub = *[0.0, 40.0, 1000000.0].choose(r).unwrap();
    // results that differ in the last digits only
    let near = *[0, 0, 0, 1, -1].choose(r).unwrap();
    let mut cli = Cli::new(&m.yaml());
    let ns = n.to_string();
    let cs = conc.to_string();
    let ss = sample.to_string();
    cli = cli.opt(&["-n", &ns]);
    if conc > 1 || r.gen() {
        cli = cli.opt(&["--num-concurrent", &cs]);
    }
    if sample > 1 || r.gen_bool(0.2) {
        cli = cli.opt(&["--sample-size", &ss]);
    }
    if r.gen_bool(0.2) {
        cli = cli.opt(&["-k", "60s"]);
    }
    if r.gen_bool(0.15) {
        cli = cli.opt(&["--terminate-after", "80 s"]);
    }
    if r.gen_bool(0.2) {
        cli = cli.opt(&["--no-signal-result"]);
    }
    if r.gen_bool(0.15) {
        cli = cli.opt(&["-v"]);
    }
    let mut guess = None;
    if r.gen_bool(0.3) {
        let g = cambrian::value::Value(m.gen_node(r, 4)).to_json();
        // only texts that are read exactly (see known_findings.json)
        let text = g.to_string();
        if m.conforms(&g).is_ok() && serde_json::from_str::<J>(&text).map_or(false, |x| same_json(&x, &g)) && !m.has_ambiguous_opt() && !text.contains('\0') {
            cli.opts.push(format!("--initial-guess={text}").into());
            guess = Some(g);
        }
    }
    let mut reject = BTreeSet::new();
    let mut at = serde_json::Map::new();
    if r.gen_bool(0.4) {
        for k in 0..n as u64 {
            if r.gen_bool(0.3) {
                reject.insert(k);
                let o = *["{}", "{\"objFuncVal\": null}", " {\"objFuncVal\":null}\n"].choose(r).unwrap();
                at.insert(k.to_string(), json!({"out": hex(o.as_bytes())}));
            }
        }
    }
    let mut def = json!({"out": {"mod": modulus, "sub": sub, "near": near}});
    if conc > 1 && r.gen_bool(0.3) {
        def["pre_ms"] = json!(r.gen_range(0..20));
        for k in 0..n as u64 {
            if r.gen_bool(0.2) && !reject.contains(&k) {
                at.insert(k.to_string(), json!({"out": {"mod": modulus, "sub": sub, "near": near}, "pre_ms": r.gen_range(0..60)}));
            }
        }
    }
    cli.plan = json!({"default": def, "at": at});
    cli.out_dir = Some("out".into());
    Plain { cli, m, conc, n, sample, guess, modulus, sub, near, reject }
}

fn run_plain(c: &mut Case, judge: fn(&Plain, &Run) -> R) -> R {
    let p = plain(&mut c.rng);
    let s = Scratch::new();
    let r = proc::run(&s, &p.cli);
    let d = p.cli.describe();
    observe(c, &r, &d);
    with(&d, judge(&p, &r))
}

/// one evaluation takes long; nothing but -k and --terminate-after limits how long
fn slow(c: &mut Case, judge: fn(&Plain, &Run) -> R) -> R {
    let mut p = plain(&mut c.rng);
    let o: &mut Vec<std::ffi::OsString> = &mut p.cli.opts;
    for flag in ["-k", "--terminate-after"] {
        if let Some(i) = o.iter().position(|x| x == flag) {
            o.drain(i..i + 2);
        }
    }
    let ks: Vec<u64> = (0..p.n as u64).filter(|k| !p.reject.contains(k)).collect();
    let Some(k) = ks.choose(&mut c.rng).copied() else { return Ok(()) };
    let ms = if c.tier == Tier::Thorough { *[13_000, 31_000, 62_000, 125_000].choose(&mut c.rng).unwrap() } else { *[6_000, 11_000, 21_000, 31_000].choose(&mut c.rng).unwrap() };
    p.cli.plan["at"][k.to_string()] = json!({"out": {"mod": p.modulus, "sub": p.sub, "near": p.near}, "pre_ms": ms});
    if c.rng.gen_bool(0.3) {
        p.cli = p.cli.opt(&["-k", "400 s"]);
    }
    p.cli.limit_s = 240.0;
    let s = Scratch::new();
    let r = proc::run(&s, &p.cli);
    let d = p.cli.describe();
    observe(c, &r, &d);
    c.max("longest_evaluation_s", ms / 1000);
    with(&d, judge(&p, &r))
}
pub fn slow_c02(c: &mut Case) -> R {
    slow(c, judge_c02)
}
pub fn slow_c14(c: &mut Case) -> R {
    slow(c, judge_c14)
}

fn argv_values(p: &Plain, r: &Run) -> R<Vec<J>> {
    let mut out = vec![];
    for s in &r.log.starts {
        ensure!(s.argv.len() >= 3, "the objective program was started with {} arguments", s.argv.len() - 1);
        let t = std::str::from_utf8(s.json()).map_err(|e| format!("parameter argument is not UTF-8: {e}"))?;
        let Some(j) = exact_json(t) else { viol!("parameter argument is not JSON: {t}") };
        out.push(j);
        let _ = p;
    }
    Ok(out)
}

pub fn judge_c01(p: &Plain, r: &Run) -> R {
    for j in argv_values(p, r)? {
        p.m.conforms(&j).map_err(|e| format!("parameter argument does not conform: {e}\n {j}"))?;
    }
    if r.code == Some(0) {
        let t = String::from_utf8_lossy(&r.stdout);
        let Some(j) = exact_json(&t) else { viol!("stdout is not JSON: {t}") };
        p.m.conforms(&j).map_err(|e| format!("printed best-seen value does not conform: {e}\n {j}"))?;
    }
    Ok(())
}

pub fn judge_c02(p: &Plain, r: &Run) -> R {
    if r.code != Some(0) {
        let any = r.log.starts.iter().any(|s| p.result_of(s).is_some());
        ensure!(p.sample != 1 || !any, "exit {:?} although an evaluation was accepted: {}", r.code, r.stderr);
        return Ok(());
    }
    let out = String::from_utf8_lossy(&r.stdout).trim_end_matches('\n').to_string();
    let summary = String::from_utf8_lossy(r.files.get("summary_report.txt").map(|v| &v[..]).unwrap_or_default()).to_string();
    let best = summary_value(&summary);
    let Some(best) = best else { viol!("no best-seen value in the summary: {summary}") };
    if p.sample == 1 {
        let min = r.log.starts.iter().filter_map(|s| p.result_of(s)).fold(f64::INFINITY, f64::min);
        ensure!(best == min, "reported best-seen objective {best}, the minimum of all accepted evaluations is {min}");
        ensure!(r.log.starts.iter().any(|s| s.json() == out.as_bytes() && p.result_of(s) == Some(best)), "printed value was never evaluated to {best}: {out}");
    } else {
        // every evaluation of one individual returns the same here, so the mean is that value
        let n = r.log.starts.iter().filter(|s| s.json() == out.as_bytes() && p.result_of(s).is_some()).count();
        ensure!(n >= p.sample, "printed value was accepted {n} times, sample size {}: {out}", p.sample);
        let v = p.value_of(out.as_bytes());
        ensure!((best - v).abs() <= 1e-12 * v.abs(), "reported best-seen objective {best}, evaluations of the printed value returned {v}");
    }
    Ok(())
}

pub fn summary_value(t: &str) -> Option<f64> {
    t.lines().next()?.rsplit(": ").next()?.trim().parse().ok()
}
pub fn summary_counts(t: &str) -> Option<(usize, usize)> {
    let n = |i: usize| t.lines().nth(i)?.rsplit(": ").next()?.trim().parse::<usize>().ok();
    Some((n(1)?, n(2)?))
}

pub fn judge_c03(p: &Plain, r: &Run) -> R {
    ensure!(r.log.starts.len() <= p.n, "{} objective processes started with -n {}", r.log.starts.len(), p.n);
    if r.code == Some(0) || r.stderr.contains("no successfully evaluated") {
        ensure!(r.log.starts.len() == p.n, "only {} objective processes started with -n {}", r.log.starts.len(), p.n);
    }
    if r.code == Some(0) {
        let t = String::from_utf8_lossy(&r.files["summary_report.txt"]).to_string();
        let (a, b) = summary_counts(&t).ok_or("no counts in the summary")?;
        ensure!(a + b == p.n, "summary counts {a} + {b}, budget {}", p.n);
    }
    Ok(())
}

pub fn overlap(r: &Run) -> usize {
    let mut ev: Vec<(u64, i32)> = vec![];
    for s in &r.log.starts {
        if let Some(e) = s.end {
            ev.push((s.at, 1));
            ev.push((e, -1));
        }
    }
    ev.sort();
    let (mut cur, mut max) = (0, 0);
    for (_, d) in ev {
        cur += d;
        max = max.max(cur);
    }
    max as usize
}

pub fn judge_c05(p: &Plain, r: &Run) -> R {
    let o = overlap(r);
    ensure!(o <= p.conc, "{o} objective processes at work at the same time, num_concurrent {}", p.conc);
    Ok(())
}

pub fn judge_c08(p: &Plain, r: &Run) -> R {
    let mut seeds = HashSet::new();
    for s in &r.log.starts {
        let Some(x) = s.seed() else { viol!("seed argument is {:?}", String::from_utf8_lossy(s.argv.last().unwrap())) };
        ensure!(seeds.insert(x), "two evaluations were given the seed {x}");
    }
    let vals = argv_values(p, r)?;
    let want = p.guess.clone().unwrap_or_else(|| p.m.init_json());
    if !vals.is_empty() {
        if p.conc == 1 {
            ensure!(same_json(&vals[0], &want), "the first parameter set is {} instead of the initial value {want}", vals[0]);
        } else if r.code == Some(0) || vals.len() >= p.conc + 20 {
            // with several at once any of them may be the first to log, and in a short run the first to be started
            // may even be terminated before it logs
            ensure!(vals.iter().any(|v| same_json(v, &want)), "none of the {} parameter sets is the initial value {want}: {:?}", vals.len(), vals[0]);
        }
    }
    // by the report: one parameter set per individual, at most sample-size evaluations of it
    let mut by: BTreeMap<usize, Vec<&Row>> = BTreeMap::new();
    for row in &r.rows {
        by.entry(row.id).or_default().push(row);
    }
    for (id, l) in by {
        ensure!(l.len() <= p.sample, "individual {id} has {} records, sample size {}", l.len(), p.sample);
        ensure!(l.iter().all(|x| x.value == l[0].value), "individual {id} has records with different parameter sets");
    }
    Ok(())
}

/// report files against what the child processes saw
pub fn judge_c14(p: &Plain, r: &Run) -> R {
    let by_seed: BTreeMap<u64, &Start> = r.log.starts.iter().filter_map(|s| Some((s.seed()?, s))).collect();
    check_rows(r, |row| {
        let Some(s) = by_seed.get(&row.seed) else { viol!("record with seed {} belongs to no evaluation", row.seed) };
        ensure!(row.value.as_bytes() == s.json(), "record with seed {} has parameter set {}, the evaluation was given {}", row.seed, row.value, String::from_utf8_lossy(s.json()));
        ensure!(row.obj == p.result_of(s), "record with seed {} has result {:?}, the evaluation returned {:?}", row.seed, row.obj, p.result_of(s));
        Ok(())
    })?;
    let done = r.log.starts.len();
    if r.code == Some(0) || r.stderr.contains("no successfully evaluated") {
        ensure!(r.rows.len() == done, "{} records, {done} evaluations ended", r.rows.len());
    }
    if r.code == Some(0) {
        let t = String::from_utf8_lossy(&r.files["summary_report.txt"]).to_string();
        let (a, b) = summary_counts(&t).ok_or("no counts in the summary")?;
        let acc = r.log.starts.iter().filter(|s| p.result_of(s).is_some()).count();
        ensure!(a == acc && b == done - acc, "summary counts {a} completed / {b} rejected, evaluations {acc} / {}", done - acc);
        if p.sample == 1 {
            ensure!(
                r.rows.iter().filter_map(|x| x.obj).fold(f64::INFINITY, f64::min) == summary_value(&t).unwrap_or(f64::NAN),
                "minimum record objective differs from the summary: {t}"
            );
        }
    }
    best_seen_file(r, p.sample == 1)
}

/// every line of the detailed report is a well-formed record, no seed twice
pub fn check_rows(r: &Run, mut f: impl FnMut(&Row) -> R) -> R {
    let Some(b) = r.files.get("detailed_report.csv") else { viol!("no detailed report, files: {:?}", r.files.keys()) };
    let t = String::from_utf8_lossy(b).to_string();
    ensure!(t.is_empty() || t.ends_with('\n'), "the detailed report ends in the middle of a line: {:?}", t.lines().last());
    let lines: Vec<&str> = t.lines().skip(1).collect();
    ensure!(lines.len() == r.rows.len(), "malformed record in the detailed report: {:?}", lines.iter().find(|l| parse_row(l).is_none()));
    let mut seen = HashSet::new();
    for row in &r.rows {
        ensure!(seen.insert(row.seed), "two records with seed {}", row.seed);
        oracle::check_csv(&row.raw, row.id, row.seed, &RawJson(&row.value), row.obj)?;
        f(row)?;
    }
    Ok(())
}

pub fn best_seen_file(r: &Run, strict: bool) -> R {
    best_seen_file_at(&r.rows, &r.files, strict)
}

pub fn best_seen_file_at(rows: &[Row], files: &BTreeMap<String, Vec<u8>>, strict: bool) -> R {
    let min = rows.iter().filter_map(|x| x.obj).fold(f64::INFINITY, f64::min);
    match files.get("best_seen.json") {
        None => ensure!(min == f64::INFINITY, "no best-seen file although {} records carry a result", rows.iter().filter(|x| x.obj.is_some()).count()),
        Some(b) => {
            let t = String::from_utf8_lossy(b).to_string();
            if strict {
                ensure!(
                    rows.iter().any(|x| x.obj == Some(min) && x.value == t.trim_end()),
                    "best-seen file holds {t}, which is no record with the minimum objective {min}"
                );
            }
        }
    }
    Ok(())
}

/// Display of a text that already is JSON
pub struct RawJson<'a>(pub &'a str);
impl std::fmt::Display for RawJson<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

macro_rules! plain_suite {
    ($n:ident $j:ident) => {
        pub fn $n(c: &mut Case) -> R {
            run_plain(c, |p, r| sane(r).and_then(|_| $j(p, r)))
        }
    };
}
plain_suite!(plain_c01 judge_c01);
plain_suite!(plain_c02 judge_c02);

/// sometimes without any evaluation, sometimes with a failure of one of the last ones
pub fn plain_c03(c: &mut Case) -> R {
    let mut p = plain(&mut c.rng);
    match c.rng.gen_range(0..12) {
        0 => {
            let i = p.cli.opts.iter().position(|x| x == "-n").unwrap();
            p.cli.opts[i + 1] = "0".into();
            p.n = 0;
        }
        1 | 2 => {
            let k = p.n - 1 - c.rng.gen_range(0..p.n.min(3));
            let f = [
                json!({"out": "", "signal": 9}),
                json!({"out": "", "signal": 15}),
                json!({"out": hex(b"{\"objFuncVal\": 1}"), "signal": 6}),
                json!({"out": hex(b"{\"objFuncVal\": 1}"), "exit": 1}),
                json!({"out": "", "exit": 75}),
                json!({"out": ""}),
                json!({"out": hex(b"?")}),
            ];
            p.cli.plan["at"][k.to_string()] = f.choose(&mut c.rng).unwrap().clone();
        }
        _ => {}
    }
    let s = Scratch::new();
    let r = proc::run(&s, &p.cli);
    let d = p.cli.describe();
    observe(c, &r, &d);
    with(&d, sane(&r).and_then(|_| judge_c03(&p, &r)))
}
plain_suite!(plain_c05 judge_c05);
plain_suite!(plain_c08 judge_c08);
plain_suite!(plain_c14 judge_c14);

// ------------------------------------------------------------------ C05: work conservation

/// every child waits until its whole batch is at work
pub fn barrier(c: &mut Case) -> R {
    let conc = c.rng.gen_range(1..=8u64);
    let batches = c.rng.gen_range(1..=4u64);
    let m = cli_space(&mut c.rng, 10);
    let (cs, ns) = (conc.to_string(), (conc * batches).to_string());
    let mut cli = Cli::new(&m.yaml()).opt(&["-n", &ns, "--num-concurrent", &cs]);
    cli.plan = json!({"default": {"out": {"mod": 1000}, "barrier": conc}});
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    with(&d, (|| {
        sane(&r)?;
        ensure!(r.log.barrier_failures.is_empty(), "an evaluation waited in vain for its batch of {conc} to be in progress: {:?}", r.log.barrier_failures);
        ensure!(r.log.starts.len() as u64 == conc * batches, "{} starts", r.log.starts.len());
        let o = overlap(&r);
        ensure!(o as u64 <= conc, "{o} objective processes at work at the same time, num_concurrent {conc}");
        Ok(())
    })())
}

// ------------------------------------------------------------------ C09: two processes, one outcome

pub fn twice(c: &mut Case) -> R {
    let mut p = plain(&mut c.rng);
    // one at a time: the completion order is the same
    p.cli.opts.extend(if p.conc > 1 { vec![] } else { vec![] });
    let i = p.cli.opts.iter().position(|o| o == "--num-concurrent");
    if let Some(i) = i {
        p.cli.opts[i + 1] = "1".into();
    }
    let mut runs = vec![];
    for k in 0..2 {
        let s = Scratch::new();
        let mut cli = p.cli.clone();
        if k == 1 {
            // time, place and environment differ
            cli.plan["default"]["pre_ms"] = json!(3);
            cli.env_path = Some("/bin:/usr/bin:/nonexistent".into());
            cli.foreign = true;
        }
        let r = proc::run(&s, &cli);
        observe(c, &r, &cli.describe());
        runs.push(r);
    }
    let d = p.cli.describe();
    with(&d, (|| {
        sane(&runs[0])?;
        sane(&runs[1])?;
        let key = |r: &Run| -> Vec<Vec<Vec<u8>>> { r.log.starts.iter().map(|s| s.argv[1..].to_vec()).collect() };
        let (a, b) = (key(&runs[0]), key(&runs[1]));
        for (k, (x, y)) in a.iter().zip(&b).enumerate() {
            let t = |v: &Vec<Vec<u8>>| v.iter().map(|b| String::from_utf8_lossy(b).to_string()).collect::<Vec<_>>();
            ensure!(x == y, "evaluation {k}: {:?} in one run, {:?} in the other", t(x), t(y));
        }
        ensure!(a.len() == b.len(), "{} evaluations in one run, {} in the other", a.len(), b.len());
        ensure!(runs[0].stdout == runs[1].stdout && runs[0].code == runs[1].code, "different output");
        let strip = |r: &Run| -> Vec<(usize, u64, String, String)> { r.rows.iter().map(|x| (x.id, x.seed, x.value.clone(), x.obj_text.clone())).collect() };
        ensure!(strip(&runs[0]) == strip(&runs[1]), "the detailed reports differ");
        Ok(())
    })())
}

// ------------------------------------------------------------------ C10: spec files

pub fn spec_file(c: &mut Case) -> R {
    let (doc, want) = super::c10::document(&mut c.rng);
    let mut cli = Cli::new(&doc).opt(&["-n", "1"]);
    cli.plan = json!({"default": {"out": hex(b"{\"objFuncVal\": 1}")}});
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    with(&d, (|| {
        sane(&r)?;
        match want {
            Some(m) => {
                ensure!(r.code == Some(0), "a well-formed spec file was refused: exit {:?}, {}", r.code, r.stderr);
                let t = String::from_utf8_lossy(&r.stdout).to_string();
                let Some(j) = exact_json(&t) else { viol!("stdout is not JSON: {t}") };
                ensure!(same_json(&j, &m.init_json()), "the only evaluation should be of the initial value {}, got {j}", m.init_json());
            }
            None => {
                ensure!(r.code != Some(0), "an ill-formed spec file was accepted");
                ensure!(!r.stderr.trim().is_empty(), "no error message");
                ensure!(r.log.starts.is_empty(), "an evaluation was started for an ill-formed spec");
            }
        }
        Ok(())
    })())
}

// ------------------------------------------------------------------ C11: the reported best-seen seeds the next run

pub fn reseed(c: &mut Case) -> R {
    let mut g = Gen::new(c.rng.gen_range(0..4), Mag::Small);
    g.hostile_names = c.rng.gen_bool(0.5);
    g.discrete_only = c.rng.gen_bool(0.8);
    let m = gen_bounded(&mut c.rng, &g, 25);
    if m.has_ambiguous_opt() {
        return Ok(());
    }
    let n = c.rng.gen_range(1..12).to_string();
    let cli = Cli::new(&m.yaml()).opt(&["-n", &n]);
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    observe(c, &r, &cli.describe());
    sane(&r)?;
    ensure!(r.code == Some(0), "exit {:?}: {}", r.code, r.stderr);
    let best = String::from_utf8_lossy(&r.stdout).trim_end_matches('\n').to_string();
    let float_text = |t: &str| !serde_json::from_str::<J>(t).map_or(false, |x| exact_json(t).map_or(false, |y| same_json(&x, &y)));
    let mut cli2 = Cli::new(&m.yaml()).opt(&["-n", "2"]);
    cli2.opts.push(format!("--initial-guess={best}").into());
    let r2 = proc::run(&s, &cli2);
    let d = cli2.describe();
    observe(c, &r2, &d);
    let sig = if float_text(&best) { "serde_json-float-text" } else { "" };
    let res: R = (|| {
        sane(&r2)?;
        ensure!(r2.code == Some(0), "a printed best-seen value was refused as the initial guess: {}", r2.stderr);
        ensure!(r2.log.starts.first().map(|s| s.json()) == Some(best.as_bytes()), "the next run starts from {:?}", r2.log.starts.first().map(|s| String::from_utf8_lossy(s.json()).to_string()));
        Ok(())
    })();
    with(&d, res).map_err(|v| Viol { sig: sig.into(), ..v })
}

/// the spec's own initial value as the guess: the same run
pub fn own_init(c: &mut Case) -> R {
    let m = cli_space(&mut c.rng, 20);
    let init = m.init_json().to_string();
    if m.has_ambiguous_opt() || init.contains('\0') || !serde_json::from_str::<J>(&init).map_or(false, |x| same_json(&x, &m.init_json())) {
        return Ok(());
    }
    let cli = Cli::new(&m.yaml()).opt(&["-n", "12"]);
    let mut cli2 = cli.clone();
    cli2.opts.push(format!("--initial-guess={init}").into());
    let s = Scratch::new();
    let (a, b) = (proc::run(&s, &cli), proc::run(&s, &cli2));
    let d = cli2.describe();
    observe(c, &b, &d);
    with(&d, (|| {
        sane(&a)?;
        sane(&b)?;
        let key = |r: &Run| -> Vec<Vec<Vec<u8>>> { r.log.starts.iter().map(|s| s.argv[1..].to_vec()).collect() };
        ensure!(key(&a) == key(&b) && a.stdout == b.stdout && a.code == b.code, "the initial value as the guess gives another run than no guess");
        Ok(())
    })())
}

/// guesses that do not conform, as text
pub fn bad_guess(c: &mut Case) -> R {
    let m = cli_space(&mut c.rng, 20);
    let Some((text, why)) = super::c11::bad_text(&mut c.rng, &m) else { return Ok(()) };
    if text.contains('\0') {
        return Ok(());
    }
    let mut cli = Cli::new(&m.yaml()).opt(&["-n", "3"]);
    cli.opts.push(format!("--initial-guess={text}").into());
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    with(&d, (|| {
        sane(&r)?;
        ensure!(r.code != Some(0) && r.log.starts.is_empty(), "a non-conforming guess ({why}) was not rejected before the first evaluation: exit {:?}, {} evaluations", r.code, r.log.starts.len());
        ensure!(!r.stderr.trim().is_empty(), "no error message");
        Ok(())
    })())
}

// ------------------------------------------------------------------ C04 / C06: how runs end

fn sleeper(r: &mut StdRng) -> J {
    json!({"out": hex(b"{\"objFuncVal\": 5}"), "pre_ms": 40_000, "ignore": r.gen::<bool>()})
}

/// C04 over processes: target, time limit or interrupt while others are at work
pub fn stops(c: &mut Case) -> R {
    let conc = c.rng.gen_range(1..=6u64);
    // the first `lead` evaluations are done quickly, the rest sleeps
    let lead = c.rng.gen_range(0..8u64);
    let cs = conc.to_string();
    let m = cli_space(&mut c.rng, 10);
    let mut cli = Cli::new(&m.yaml()).opt(&["--num-concurrent", &cs]);
    let mut at = serde_json::Map::new();
    for k in 0..lead {
        let rej = c.rng.gen_bool(0.2);
        at.insert(k.to_string(), json!({"out": if rej { json!(hex(b"{}")) } else { json!({"mod": 100, "sub": -20.0}) }, "pre_ms": c.rng.gen_range(0..5)}));
    }
    let kind = c.rng.gen_range(0..3);
    let mut hit = 0.0;
    let mut early = false;
    match kind {
        0 => {
            // the last one of the first batch of sleepers reaches the target
            let (res, targets): (&str, &[&str]) = *[
                ("-7.5", &["-7.5", "-7.25", "-1", "-0.75e1"] as &[&str]),
                ("0", &["0", "0.0", "-0", "1e-3", "5"]),
                ("-0.0", &["0", "-0.0", "1e-300"]),
                ("3.5", &["3.5", "3.5e0", "12", "19.999"]),
                ("-1e10", &["-1e10", "-9999999999"]),
            ]
            .choose(&mut c.rng)
            .unwrap();
            hit = res.parse().unwrap();
            at.insert((lead + conc - 1).to_string(), json!({"out": hex(format!("{{\"objFuncVal\": {res}}}").as_bytes()), "pre_ms": c.rng.gen_range(0..30)}));
            let target = targets.choose(&mut c.rng).unwrap();
            cli = cli.opt(&[&format!("{}{target}", ["-t=", "-t", "--target-obj-func-val="].choose(&mut c.rng).unwrap())]);
        }
        1 if c.rng.gen_bool(0.2) => {
            early = true;
            cli = cli.opt(&["--terminate-after", ["0", "0s", "0 ms", "1ms", "30 ms"].choose(&mut c.rng).unwrap()]);
        }
        1 => cli = cli.opt(&["--terminate-after", ["700ms", "0.9 s", "1 second"].choose(&mut c.rng).unwrap()]),
        _ => cli.sig = Sig::AfterStarts(lead + conc, c.rng.gen_range(0..150), c.rng.gen_range(1..4)),
    }
    if c.rng.gen_bool(0.3) {
        cli = cli.opt(&["-n", "1000"]);
    }
    cli.plan = json!({"default": sleeper(&mut c.rng), "at": at});
    cli.out_dir = Some("out".into());
    cli.limit_s = 35.0;
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    c.count(["ended_by_target", "ended_by_time_limit", "ended_by_interrupt"][kind], 1);
    with(&d, (|| {
        ensure!(!r.hung && r.wall < 30.0, "the run took {:.1} s although all in flight honour the abort", r.wall);
        sane(&r)?;
        let starts = r.log.starts.len() as u64;
        // everything after the lead sleeps: the last start is the one that filled the last free slot
        ensure!(starts <= lead + conc, "{starts} evaluations started, at most {} could start before the stop", lead + conc);
        let acc: Vec<f64> = r.log.starts.iter().filter(|s| s.n < lead && s.end.is_some()).filter_map(|s| {
            let a = &at_out(&cli.plan, s.n);
            a.is_object().then(|| (cobj_hash(s.json()) % 100) as f64 / 8.0 + 20.0)
        }).collect();
        let mut best = acc.iter().copied().fold(f64::INFINITY, f64::min);
        if kind == 0 {
            best = hit;
            ensure!(r.code == Some(0), "target reached, but exit {:?}: {}", r.code, r.stderr);
        }
        // results on their way when the request came may or may not have been seen: judged on a full house only
        if starts == lead + conc {
            if best < f64::INFINITY {
                ensure!(r.code == Some(0), "exit {:?} although {} evaluations were accepted: {}", r.code, acc.len(), r.stderr);
                let t = String::from_utf8_lossy(&r.files["summary_report.txt"]).to_string();
                ensure!(summary_value(&t) == Some(best), "reports {:?}, best seen was {best}", summary_value(&t));
            } else {
                ensure!(r.code != Some(0), "a report without any accepted evaluation");
            }
        }
        if kind == 1 && !early {
            ensure!(r.wall > 0.6, "stopped after {:.2} s, long before the time limit", r.wall);
        }
        if let Some(t) = r.sigint_at {
            for x in &r.log.starts {
                ensure!(x.at < t + 1_500_000_000, "evaluation {} started {:.1} s after the interrupt", x.n, (x.at - t) as f64 / 1e9);
            }
        }
        Ok(())
    })())
}

fn at_out(plan: &J, n: u64) -> J {
    plan["at"].get(n.to_string()).unwrap_or(&plan["default"])["out"].clone()
}

/// an accepted result, white space, and then something else
pub fn padded(n: usize, end: &[u8]) -> Vec<u8> {
    [b"{\"objFuncVal\": 1}", &vec![b' '; n][..], end].concat()
}

/// C06 over processes: one evaluation fails while others are at work
pub fn fails(c: &mut Case) -> R {
    let conc = c.rng.gen_range(1..=6u64);
    let lead = c.rng.gen_range(0..8u64);
    let cs = conc.to_string();
    let m = cli_space(&mut c.rng, 10);
    let mut cli = Cli::new(&m.yaml()).opt(&["--num-concurrent", &cs]);
    let mut at = serde_json::Map::new();
    for k in 0..lead {
        at.insert(k.to_string(), json!({"out": {"mod": 100, "sub": 0.0}, "pre_ms": c.rng.gen_range(0..5)}));
    }
    let failing = [
        json!({"out": hex(b"{\"objFuncVal\": 1}"), "exit": 3}),
        json!({"out": hex(b"{\"objFuncVal\": 1}"), "exit": 255}),
        json!({"out": hex(b"{}"), "exit": 1}),
        json!({"out": hex(b"nonsense")}),
        json!({"out": hex(b"{\"objFuncVal\": 1, \"x\": 2}")}),
        json!({"out": hex(b"{\"objFuncVal\": 1e999}")}),
        json!({"out": hex(b"{\"objFuncVal\": 1}"), "signal": 9}),
        json!({"out": hex(b"{\"objFuncVal\": 1}"), "signal": 15}),
        json!({"out": hex(b"{\"objFuncVal\": 1}{")}),
        json!({"out": hex(b"{\"objFuncVal\": \"1\"}")}),
        json!({"out": hex(b"{\"objFuncVal\": [1]}")}),
        json!({"out": hex(b"{\"objFuncVal\": true}")}),
        json!({"out": hex(b"{\"objFuncVal\": NaN}")}),
        json!({"out": hex(b"{\"objFuncVal\": -Infinity}")}),
        json!({"out": hex(b"{\"objfuncval\": 1}")}),
        json!({"out": hex(b"[1]")}),
        json!({"out": hex(b"1")}),
        json!({"out": hex(b"")}),
        json!({"out": hex(b"\xff{\"objFuncVal\": 1}")}),
        json!({"out": hex(b"\0{\"objFuncVal\": 1}")}),
        json!({"out": hex(b"progress 50%\n{\"objFuncVal\": 1}\n")}),
        json!({"out": hex(b"{\"objFuncVal\": 1}\0")}),
        json!({"out": hex(b"{\"objFuncVal\": 1}\0\0x")}),
        json!({"out": hex(&padded(70_000, b"x"))}),
        json!({"out": hex(&padded(5_000, b"{}"))}),
        json!({"out": "", "signal": 9}),
        json!({"out": "", "signal": 6}),
        json!({"out": "", "signal": 11}),
    ];
    let mut f = failing.choose(&mut c.rng).unwrap().clone();
    f["pre_ms"] = json!(c.rng.gen_range(0..40));
    let which = lead + conc - 1;
    at.insert(which.to_string(), f.clone());
    if c.rng.gen_bool(0.3) {
        cli = cli.opt(&["-n", "1000"]);
    }
    if c.rng.gen_bool(0.3) {
        cli = cli.opt(&["-t=-1000"]);
    }
    if c.rng.gen_bool(0.3) {
        cli = cli.opt(&["-k", "60 s"]);
    }
    cli.plan = json!({"default": sleeper(&mut c.rng), "at": at});
    cli.out_dir = Some("out".into());
    cli.limit_s = 35.0;
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    with(&d, (|| {
        ensure!(!r.hung && r.wall < 30.0, "the run took {:.1} s although all in flight honour the abort", r.wall);
        sane(&r)?;
        ensure!(r.code != Some(0), "evaluation {which} failed ({f}) but the run succeeded");
        ensure!(!r.stderr.trim().is_empty(), "no error message");
        ensure!(r.log.starts.len() as u64 <= lead + conc, "{} evaluations started, {} could start before the failure", r.log.starts.len(), lead + conc);
        for x in r.log.starts.iter().filter(|x| x.n >= lead && x.n != which) {
            ensure!(x.end.is_none(), "evaluation {} was not told to abort", x.n);
        }
        Ok(())
    })())
}

// ------------------------------------------------------------------ C15: whatever a child writes

fn bytes(r: &mut StdRng) -> Vec<u8> {
    let good = ["{\"objFuncVal\": 1}", "{\"objFuncVal\": -2.5e3}", "{}", "{\"objFuncVal\": null}", "{\"objFuncVal\": 1e300}", "{\"objFuncVal\": -0.0}"];
    let g = good.choose(r).unwrap().as_bytes().to_vec();
    match r.gen_range(0..14) {
        0 => vec![],
        1 => g[..r.gen_range(0..g.len())].to_vec(),
        2 => [&g[..], &g[..]].concat(),
        3 => (0..r.gen_range(1..300)).map(|_| r.gen()).collect(),
        4 => {
            let mut x = g;
            for _ in 0..r.gen_range(1..4) {
                let i = r.gen_range(0..x.len());
                x[i] = r.gen();
            }
            x
        }
        5 => [b"\xef\xbb\xbf", &g[..]].concat(),
        6 => [&g[..], *[&b"\0"[..], b"\xff", b"\n\n\r\n\t ", b"}", b"\x80"].choose(r).unwrap()].concat(),
        7 => vec![b'['; r.gen_range(1..20000)],
        8 => "{\"objFuncVal\":".repeat(r.gen_range(1..3000)).into_bytes(),
        9 => format!("{{\"objFuncVal\": 0.{}}}", "1".repeat(r.gen_range(1..30000))).into_bytes(),
        10 => format!("{{\"objFuncVal\": {}}}", ["NaN", "Infinity", "-Infinity", "1e999", "1e-999", "true", "\"1\"", "[1]", "{}", "0x10", "1e", "--1", "\u{1F600}"].choose(r).unwrap()).into_bytes(),
        11 => "ä\u{1F600}漢\u{202e}\r\x1b[2J%s{}{0}\\".repeat(r.gen_range(1..200)).into_bytes(),
        12 => [&" \n".repeat(r.gen_range(1..5000)).into_bytes()[..], &g[..]].concat(),
        _ => g,
    }
}

fn byte_action(r: &mut StdRng) -> J {
    let out = bytes(r);
    let mut a = json!({"out": hex(&out)});
    if r.gen_bool(0.5) {
        let mut e = bytes(r);
        if r.gen_bool(0.3) {
            // invalid UTF-8 cut at arbitrary places
            e.extend("\u{10ffff}".repeat(40).as_bytes());
            e.truncate(r.gen_range(0..e.len()));
        }
        a["err"] = json!(hex(&e));
    }
    if r.gen_bool(0.12) {
        // more than any pipe holds
        a["reps"] = json!(*[20, 100, 1200].choose(r).unwrap());
        a["reps_err"] = json!(r.gen::<bool>());
        a["filler"] = json!(hex(*[&b" "[..], b"\n", b"\xff\xfe", b"x", b"\0", "ä漢\n".as_bytes()].choose(r).unwrap()));
    }
    if out.len() < 200 && r.gen_bool(0.1) {
        a["slow_out"] = json!(true);
    }
    if r.gen_bool(0.1) {
        a["close"] = json!(true);
        a["post_ms"] = json!(r.gen_range(0..30));
    }
    if r.gen_bool(0.3) {
        a["exit"] = json!(*[1, 2, 127, 255].choose(r).unwrap());
    } else if r.gen_bool(0.05) {
        a["signal"] = json!(*[libc::SIGKILL, libc::SIGTERM, libc::SIGPIPE, libc::SIGINT].choose(r).unwrap());
    }
    a
}

fn without_time(r: &Run) -> BTreeMap<String, Vec<u8>> {
    let mut f = r.files.clone();
    if let Some(b) = f.get_mut("summary_report.txt") {
        *b = String::from_utf8_lossy(b).lines().filter(|l| !l.to_lowercase().contains("time")).collect::<Vec<_>>().join("\n").into_bytes();
    }
    if let Some(b) = f.get_mut("detailed_report.csv") {
        *b = String::from_utf8_lossy(b)
            .lines()
            .map(|l| l.split(';').enumerate().filter(|(i, _)| *i != 1).map(|x| x.1).collect::<Vec<_>>().join(";"))
            .collect::<Vec<_>>()
            .join("\n")
            .into_bytes();
    }
    f
}

/// hostile bytes, through the library with every log message formatted: the same evaluations and result
fn through_library(c: &mut Case, quiet: &Run, cli: &Cli, d: &str) -> R {
    let mut lib = cli.clone();
    lib.out_dir = None;
    lib.lib = Some(["trace", "trace", "trace", "debug", "off"].choose(&mut c.rng).unwrap());
    let s = Scratch::new();
    let r = proc::run(&s, &lib);
    observe(c, &r, d);
    c.count("library_runs", 1);
    with(d, (|| {
        sane(&r)?;
        ensure!((quiet.code == Some(0)) == (r.code == Some(0)), "exit {:?}, through the library with log level {:?} {:?}: {}", quiet.code, lib.lib, r.code, short(&r.stderr, 600));
        ensure!(quiet.stdout == r.stdout, "through the library with log level {:?}: {:?} instead of {:?}", lib.lib, String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&quiet.stdout));
        ensure!(quiet.log.starts.len() == r.log.starts.len(), "{} evaluations, through the library {}", quiet.log.starts.len(), r.log.starts.len());
        Ok(())
    })())
}

/// hostile bytes, quiet and with --verbose: the same run, apart from the log
pub fn child_bytes(c: &mut Case) -> R {
    let m = cli_space(&mut c.rng, 15);
    let n = c.rng.gen_range(1..12u64);
    let ns = n.to_string();
    let mut cli = Cli::new(&m.yaml()).opt(&["-n", &ns]);
    let mut at = serde_json::Map::new();
    // most runs get past their first few evaluations
    let calm = c.rng.gen_range(0.0f64..1.0).sqrt();
    for k in 0..n {
        let a = if c.rng.gen_bool(calm) {
            let mut a = json!({"out": {"mod": 20, "sub": 1.0}});
            if c.rng.gen_bool(0.5) {
                a["err"] = json!(hex(&bytes(&mut c.rng)));
            }
            a
        } else {
            byte_action(&mut c.rng)
        };
        at.insert(k.to_string(), a);
    }
    if c.rng.gen_bool(0.3) {
        let s = c.rng.gen_range(1..4).to_string();
        cli = cli.opt(&["--sample-size", &s]);
    }
    if c.rng.gen_bool(0.2) {
        cli = cli.opt(&["-k", "60s"]);
    }
    if c.rng.gen_bool(0.2) {
        cli = cli.opt(&["-t=-1000"]);
    }
    cli.plan = json!({"default": {"out": hex(b"{}")}, "at": at});
    cli.out_dir = Some("out".into());
    let mut loud = cli.clone();
    loud.opts.push((*["-v", "--verbose"].choose(&mut c.rng).unwrap()).into());
    let d = cli.describe();
    let s = Scratch::new();
    let a = proc::run(&s, &cli);
    observe(c, &a, &d);
    if c.rng.gen_bool(0.6) {
        through_library(c, &a, &cli, &d)?;
    }
    let s = Scratch::new();
    let b = proc::run(&s, &loud);
    observe(c, &b, &d);
    c.count("log_lines", b.stderr.lines().count() as u64);
    with(&d, (|| {
        for r in [&a, &b] {
            sane(r)?;
            ensure!(r.code == Some(0) || !r.stderr.trim().is_empty(), "exit {:?} without an error message", r.code);
            ensure!(r.code != Some(0) || !r.stdout.is_empty(), "exit 0 without output");
        }
        ensure!(a.code == b.code, "exit {:?} quiet, {:?} with --verbose: {}", a.code, b.code, short(&b.stderr, 600));
        ensure!(a.stdout == b.stdout, "--verbose changes stdout: {:?} vs {:?}", String::from_utf8_lossy(&a.stdout), String::from_utf8_lossy(&b.stdout));
        let key = |r: &Run| -> Vec<Vec<Vec<u8>>> { r.log.starts.iter().map(|s| s.argv[1..].to_vec()).collect() };
        ensure!(key(&a) == key(&b), "--verbose changes the evaluations");
        let (fa, fb) = (without_time(&a), without_time(&b));
        ensure!(fa.keys().eq(fb.keys()), "--verbose changes the files: {:?} vs {:?}", fa.keys(), fb.keys());
        for (k, v) in &fa {
            ensure!(v == &fb[k], "--verbose changes {k}: {:?} vs {:?}", short(&String::from_utf8_lossy(v), 600), short(&String::from_utf8_lossy(&fb[k]), 600));
        }
        if a.code != Some(0) {
            // the error is still described
            let msg: String = a.stderr.replace(&s_dir(&a), "");
            let last = msg.trim().lines().last().unwrap_or("").trim().to_string();
            ensure!(b.stderr.contains(&last), "with --verbose the error message is missing: {last}");
        }
        Ok(())
    })())
}

/// the scratch directory's name, as it appears in messages
fn s_dir(r: &Run) -> String {
    r.args.iter().find_map(|a| a.to_str()?.strip_suffix("/spec.yaml").map(|x| x.to_string())).unwrap_or_else(|| "\u{1}".into())
}
