//! Process lifetimes: nothing outlives the run, timeouts kill whole groups, and only timeouts do.
use super::cli::{cli_space, observe, sane, with};
use super::*;
use crate::proc::{self, *};
use crate::{ensure, viol};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

const LONG: u64 = 60_000;

/// processes an evaluation starts itself
fn spawns(r: &mut StdRng, escape: bool, hold: bool) -> J {
    let n = *[0, 1, 1, 2, 3].choose(r).unwrap();
    J::Array(
        (0..n)
            .map(|_| {
                let leaves = escape && r.gen_bool(0.15);
                json!({
                    "ms": LONG, "ignore": r.gen::<bool>(), "double": r.gen_bool(0.3),
                    "setsid": leaves, "hold": hold && r.gen::<bool>(),
                })
            })
            .collect(),
    )
}

/// an evaluation that does not end by itself
fn endless(r: &mut StdRng) -> J {
    let mut a = json!({"out": hex(b"{\"objFuncVal\": 5}"), "pre_ms": LONG});
    a["ignore"] = json!(r.gen_bool(0.6));
    a["spawn"] = spawns(r, true, true);
    match r.gen_range(0..6) {
        0 => {
            // stopped
            a["pre_ms"] = json!(0);
            a["stop"] = json!(true);
        }
        1 => {
            // everything printed, output closed, but still there
            a["pre_ms"] = json!(0);
            a["close"] = json!(true);
            a["post_ms"] = json!(LONG);
            for s in a["spawn"].as_array_mut().unwrap() {
                s["hold"] = json!(false);
            }
        }
        2 => {
            // everything printed
            a["pre_ms"] = json!(0);
            a["post_ms"] = json!(LONG);
        }
        3 => {
            // lots of output first
            a["pre_ms"] = json!(0);
            a["reps"] = json!(r.gen_range(1..400));
            a["reps_err"] = json!(r.gen::<bool>());
            a["post_ms"] = json!(LONG);
        }
        _ => {}
    }
    a
}

/// an evaluation that is done at once but leaves processes of its group behind
fn quick(r: &mut StdRng) -> J {
    json!({"out": {"mod": 100, "sub": 0.0}, "pre_ms": r.gen_range(0..6), "spawn": if r.gen_bool(0.5) { spawns(r, true, false) } else { json!([]) }})
}

fn note(c: &mut Case, r: &Run, kind: &str) {
    c.count(&format!("ended_by_{kind}"), 1);
    let open = r.log.starts.iter().filter(|s| s.end.is_none()).count();
    c.count("evaluations_killed_in_flight", open as u64);
    c.count("descendants_in_a_group", r.log.grand.iter().filter(|g| !g.3).count() as u64);
    c.max("in_flight_at_the_end", open as u64);
}

fn endings(c: &mut Case) -> R {
    let conc = c.rng.gen_range(1..=6u64);
    let lead = *[0, 0, 1, 2, 5].choose(&mut c.rng).unwrap();
    let which = lead + if c.rng.gen() { conc - 1 } else { c.rng.gen_range(0..conc) };
    let cs = conc.to_string();
    let m = cli_space(&mut c.rng, 8);
    let mut cli = Cli::new(&m.yaml()).opt(&["--num-concurrent", &cs]);
    let mut at = serde_json::Map::new();
    for k in 0..lead {
        at.insert(k.to_string(), quick(&mut c.rng));
    }
    for k in lead..lead + conc + 3 {
        at.insert(k.to_string(), endless(&mut c.rng));
    }
    let delay = *[0u64, 0, 1, 5, 30, 120].choose(&mut c.rng).unwrap();
    let mut trigger = quick(&mut c.rng);
    trigger["pre_ms"] = json!(delay);
    let mut kind = *["target", "failure", "invalid output", "time limit", "interrupt", "budget", "signal death"].choose(&mut c.rng).unwrap();
    match kind {
        "target" => {
            trigger["out"] = json!(hex(b"{\"objFuncVal\": -3}"));
            cli = cli.opt(&["-t=-2.5"]);
        }
        "failure" => trigger["exit"] = json!(7),
        "invalid output" => trigger["out"] = json!(hex(b"{\"objFuncVal\": }")),
        "signal death" => trigger["signal"] = json!(11),
        "time limit" => cli = cli.opt(&["--terminate-after", ["300ms", "500ms", "700ms"].choose(&mut c.rng).unwrap()]),
        "interrupt" => cli.sig = Sig::AfterStarts(c.rng.gen_range(1..=lead + conc), delay, c.rng.gen_range(1..4)),
        _ => {
            // what is left of finished evaluations
            let n = lead + conc;
            cli = cli.opt(&["-n", &n.to_string()]);
            for k in 0..n {
                let mut q = quick(&mut c.rng);
                q["spawn"] = spawns(&mut c.rng, true, false);
                q["pre_ms"] = json!(c.rng.gen_range(0..50));
                at.insert(k.to_string(), q);
            }
            // the last one may be ended by its time limit
            if c.rng.gen_bool(0.4) {
                at.insert((n - 1).to_string(), endless(&mut c.rng));
                cli = cli.opt(&["-k", "600ms"]);
                kind = "budget and timeout";
            }
        }
    }
    if !kind.starts_with("budget") {
        at.insert(which.to_string(), trigger);
        if c.rng.gen_bool(0.25) {
            // a per-evaluation limit that may strike at the same moment
            let k = format!("{}ms", (delay + *[0u64, 20, 200, 900].choose(&mut c.rng).unwrap()).max(20));
            cli = cli.opt(&["-k", &k, "-n", &(lead + conc + 8).to_string()]);
        }
    }
    cli.plan = json!({"default": endless(&mut c.rng), "at": at});
    cli.out_dir = Some("out".into());
    cli.limit_s = 40.0;
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    note(c, &r, kind);
    with(&d, (|| {
        ensure!(!r.hung, "ended by {kind}: cambrian did not return within {:.0} s", r.wall);
        sane(&r)?;
        ensure!(r.survivors.is_empty(), "ended by {kind} after {:.2} s (exit {:?}), still alive: {}", r.wall, r.code, r.survivors.join("; "));
        Ok(())
    })())
}

/// evaluations that exceed the limit among others that do not
fn timeouts(c: &mut Case) -> R {
    let conc = *[1, 1, 2, 4].choose(&mut c.rng).unwrap();
    let (text, l) = *[("1s", 1.0), ("900ms", 0.9), ("1.1 seconds", 1.1), ("1200 milliseconds", 1.2), ("0.02 min", 1.2)].choose(&mut c.rng).unwrap();
    let n = c.rng.gen_range(3..8u64);
    let m = cli_space(&mut c.rng, 8);
    let cs = conc.to_string();
    let mut cli = Cli::new(&m.yaml()).opt(&["-n", &n.to_string(), "--num-concurrent", &cs, "-k", text]);
    let mut at = serde_json::Map::new();
    let mut slow = vec![false; n as usize];
    for k in 0..n {
        let mut a = if c.rng.gen_bool(0.5) {
            slow[k as usize] = true;
            let mut a = endless(&mut c.rng);
            a["times_out"] = json!(true);
            a
        } else {
            let mut a = quick(&mut c.rng);
            a["pre_ms"] = json!(c.rng.gen_range(0..200));
            a
        };
        if conc == 1 {
            a["check_dead"] = json!(true);
        }
        at.insert(k.to_string(), a);
    }
    cli.plan = json!({"default": {"out": "00"}, "at": at});
    cli.out_dir = Some("out".into());
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    note(c, &r, "budget");
    c.count("exceeding", slow.iter().filter(|x| **x).count() as u64);
    let rows: BTreeMap<u64, &Row> = r.rows.iter().map(|x| (x.seed, x)).collect();
    let mut overloaded = 0;
    let res = with(&d, (|| {
        sane(&r)?;
        ensure!(r.log.alive_after_timeout.is_empty(), "processes of a timed-out evaluation still alive 3 s after the next one was started: {:?}", r.log.alive_after_timeout);
        ensure!(r.log.starts.len() as u64 == n, "{} of {n} evaluations started; stderr: {}", r.log.starts.len(), short(&r.stderr, 300));
        let mut accepted = 0;
        for (i, x) in r.log.starts.iter().enumerate() {
            let Some(row) = x.seed().and_then(|s| rows.get(&s)) else { viol!("evaluation {i} has no record; stderr: {}", short(&r.stderr, 300)) };
            if slow[i] {
                ensure!(row.obj.is_none(), "evaluation {i} exceeds the limit {text} but counts as accepted with {:?}", row.obj);
                ensure!(x.end.is_none(), "evaluation {i} exceeds the limit {text} but was not killed");
                ensure!(row.time >= 0.95 * l, "evaluation {i} was given up after {} s, limit {text}", row.time);
                ensure!(row.time <= l + 10.0, "evaluation {i} exceeding the limit {text} was only given up after {} s", row.time);
            } else if row.obj.is_none() {
                ensure!(row.time >= 0.95 * l, "evaluation {i} was rejected after {} s, limit {text}", row.time);
                overloaded += 1;
            } else {
                accepted += 1;
            }
        }
        if conc == 1 {
            for (a, b) in r.log.starts.iter().zip(r.log.starts.iter().skip(1)) {
                let dt = (b.at - a.at) as f64 / 1e9;
                ensure!(!slow[a.n as usize] || dt > 0.9 * l, "evaluation {} was given up {dt:.2} s after its start, limit {text}", a.n);
            }
        }
        let t = r.files.get("summary_report.txt").map(|b| String::from_utf8_lossy(b).to_string());
        if accepted > 0 {
            ensure!(r.code == Some(0), "exit {:?}: {}", r.code, short(&r.stderr, 300));
            let cts = t.as_deref().and_then(cli::summary_counts);
            ensure!(cts == Some((accepted, n as usize - accepted)), "the summary counts {cts:?}, expected {accepted} completed and {} rejected", n as usize - accepted);
        }
        ensure!(r.survivors.is_empty(), "still alive after the run: {}", r.survivors.join("; "));
        Ok(())
    })());
    c.count("in_time_but_overloaded", overloaded);
    res
}

/// limits close to zero: nothing can finish in time
fn tiny(c: &mut Case) -> R {
    let conc = *[1u64, 1, 2, 5].choose(&mut c.rng).unwrap();
    let (text, l) = *[("0", 0.0), ("0s", 0.0), ("0 ms", 0.0), ("1ns", 0.0), ("1us", 0.0), ("1ms", 0.001), ("30 ms", 0.03), ("100ms", 0.1)].choose(&mut c.rng).unwrap();
    let n = c.rng.gen_range(1..12u64);
    let m = cli_space(&mut c.rng, 8);
    let mut cli = Cli::new(&m.yaml()).opt(&["-n", &n.to_string(), "--num-concurrent", &conc.to_string(), "-k", text]);
    let mut a = endless(&mut c.rng);
    a["pre_ms"] = json!(LONG);
    a["times_out"] = json!(true);
    cli.plan = json!({"default": a});
    cli.out_dir = Some("out".into());
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    note(c, &r, "budget");
    c.count("exceeding", n);
    with(&d, (|| {
        sane(&r)?;
        ensure!(r.rows.len() as u64 == n, "{} records for {n} evaluations with the limit {text}; stderr: {}", r.rows.len(), short(&r.stderr, 300));
        for x in &r.rows {
            ensure!(x.obj.is_none(), "an evaluation that exceeds the limit {text} counts as accepted with {:?}", x.obj);
            ensure!(x.time <= l + 10.0, "an evaluation exceeding the limit {text} was only given up after {} s", x.time);
        }
        ensure!(r.survivors.is_empty(), "still alive after the run: {}", r.survivors.join("; "));
        Ok(())
    })())
}

/// many evaluations that finish in time, together taking much longer than the limit
fn in_time(c: &mut Case) -> R {
    let conc = *[1u64, 2, 3].choose(&mut c.rng).unwrap();
    let n = c.rng.gen_range(5..8u64) * conc;
    let (text, l) = *[("2s", 2.0), ("2500ms", 2.5), ("3 s", 3.0)].choose(&mut c.rng).unwrap();
    let m = cli_space(&mut c.rng, 8);
    let mut cli = Cli::new(&m.yaml()).opt(&["-n", &n.to_string(), "--num-concurrent", &conc.to_string(), "-k", text]);
    let mut at = serde_json::Map::new();
    for k in 0..n {
        let mut a = json!({"out": {"mod": 100, "sub": 0.0}, "pre_ms": c.rng.gen_range(200..800)});
        match c.rng.gen_range(0..6) {
            0 => a["spawn"] = spawns(&mut c.rng, true, false),
            1 => {
                a["reps"] = json!(c.rng.gen_range(1..500));
                a["reps_err"] = json!(true);
            }
            2 => a["slow_out"] = json!(true),
            3 => {
                a["close"] = json!(true);
                a["post_ms"] = json!(100);
            }
            4 => a["ignore"] = json!(true),
            _ => {}
        }
        at.insert(k.to_string(), a);
    }
    cli.plan = json!({"default": {"out": "00"}, "at": at});
    cli.out_dir = Some("out".into());
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    note(c, &r, "budget");
    let rows: BTreeMap<u64, &Row> = r.rows.iter().map(|x| (x.seed, x)).collect();
    let mut overloaded = 0;
    let res = with(&d, (|| {
        sane(&r)?;
        ensure!(r.code == Some(0) || r.rows.iter().any(|x| x.time > 0.95 * l), "exit {:?}: {}", r.code, short(&r.stderr, 300));
        for x in &r.log.starts {
            let Some(row) = x.seed().and_then(|s| rows.get(&s)) else { viol!("evaluation {} has no record; stderr: {}", x.n, short(&r.stderr, 300)) };
            if row.obj.is_none() {
                ensure!(row.time >= 0.95 * l, "evaluation {} was rejected after {} s, limit {text} (it {})", x.n, row.time, if x.end.is_none() { "was killed" } else { "had finished" });
                overloaded += 1;
            }
        }
        ensure!(r.survivors.is_empty(), "still alive after the run: {}", r.survivors.join("; "));
        Ok(())
    })());
    c.count("in_time_but_overloaded", overloaded);
    res
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "distinct runs of the real binary (configuration, seeds and durations of its children) ended in one of the ways listed in observed.*.ended_by_*",
        assumptions: &[
            "every run has a user id of its own; whatever still runs under it (or is logged) 2 s after the binary returned, is no zombie and did not leave its group by setsid, is a survivor",
            "an evaluation rejected only after 95% of its limit although it was meant to be quick is put down to an overloaded machine (counted as in_time_but_overloaded)",
        ],
        suites: vec![
            suite("endings", 500, 12000, endings).threads(20).secs(40.0, 280.0),
            suite("timeouts", 120, 3000, timeouts).threads(32).secs(40.0, 280.0),
            suite("tiny", 120, 3000, tiny).threads(16).secs(40.0, 100.0),
            suite("in_time", 64, 1500, in_time).threads(32).secs(40.0, 280.0),
        ],
    }
}
