# ------------------------------------------------------------------ C01
rust("c01-int-clamp-in-f64", "C01",
 "integer bounds beyond 2^53, where an i64 bound is not representable as f64",
 "integers are clamped in f64 before the conversion, so a candidate can lie outside its declared bounds",
 r'''
fn main() {
    let (min, max) = (9_007_199_254_740_993i64, 9_007_199_254_740_997i64);
    let yaml = format!("type: int\ninit: {min}\nmin: {min}\nmax: {max}\nscale: 3\n");
    let (evals, result) = run(&yaml, Cfg { n: Some(400), ..Cfg::default() }, |ev| Act::Val(ev.n as f64));
    result.unwrap();
    for ev in evals {
        let x = ev.value.as_i64().expect("an i64");
        assert!(x >= min && x <= max, "candidate {x} outside [{min}, {max}]");
    }
}
''')
rust("c01-real-reflect", "C01",
 "two-sided bounds for which min + (max - min) rounds to a number above max (or max - (max - min) below min), and a mutation that overshoots far",
 "reals are reflected at the bounds, with a rounding error that leaves the bounds",
 r'''
fn main() {
    let (mut min, mut max) = (0.0, 0.0);
    let mut r = 12345u64;
    let mut next = || { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (r >> 11) as f64 / (1u64 << 53) as f64 };
    // bounds of ordinary magnitude for which the width is not exact
    for _ in 0..1_000_000 {
        let (a, b) = (-next(), next() * 10.0);
        if a + (b - a) > b || b - (b - a) < a { (min, max) = (a, b); break; }
    }
    assert!(min < max);
    let yaml = format!("type: real\ninit: {min:?}\nmin: {min:?}\nmax: {max:?}\nscale: 1.0e6\n");
    let s = spec(&yaml);
    let mut o = ops();
    let mut rng = rng(7);
    let v = val(&s, &format!("{min:?}"));
    for _ in 0..2000 {
        let x = o.mutate(&s, &v, 1.0, 1.0, &mut rng).to_json().as_f64().unwrap();
        assert!(x >= min && x <= max, "candidate {x:?} outside [{min:?}, {max:?}]");
    }
}
''')
rust("c01-variant-keep-payload", "C01",
 "a variant two of whose options are reals with different bounds, switched by mutation while the current number is outside the new option's bounds",
 "the number of the previous option is carried over into the new option, outside that option's bounds",
 r'''
fn main() {
    let yaml = "type: variant\ninit: wide\nwide:\n  type: real\n  init: 500.0\n  min: 100.0\n  max: 1000.0\n  scale: 10\nnarrow:\n  type: real\n  init: 0.5\n  min: 0.0\n  max: 1.0\n  scale: 0.1\n";
    let (evals, result) = run(yaml, Cfg { n: Some(600), ..Cfg::default() }, |ev| Act::Val(-(ev.n as f64)));
    result.unwrap();
    for ev in evals {
        let (name, x) = ev.value.as_object().unwrap().iter().next().unwrap();
        let x = x.as_f64().unwrap();
        let ok = if name == "wide" { (100.0..=1000.0).contains(&x) } else { (0.0..=1.0).contains(&x) };
        assert!(ok, "candidate {}", ev.value);
    }
}
''')
# ------------------------------------------------------------------ C02
rust("c02-drain-lost", "C02",
 "a termination request while an evaluation is in flight that does not honour the abort and returns the best result of the run while the run is draining",
 "results that arrive after the termination request are not recorded, so a better one is lost",
 r'''
fn main() {
    let (_, result) = run("type: real\ninit: 0\nscale: 1\n", Cfg { conc: 3, after_ms: Some(200), ..Cfg::default() }, |ev| match ev.n {
        0 => Act::Val(5.0),
        1 => Act::Late(900, 1.0),
        _ => Act::Hold,
    });
    let report = result.expect("a result was accepted");
    assert_eq!(report.best_seen.obj_func_val, 1.0, "the better result returned while draining was lost");
}
''')
rust("c02-evict-oldest", "C02",
 "a full population of 100 without partly sampled individuals, and a best individual that is older than a hundred others",
 "the population evicts its oldest member rather than its worst unless a member is partly sampled, so the best result is lost",
 r'''
fn main() {
    let (_, result) = run("type: real\ninit: 0\nscale: 1\n", Cfg { n: Some(400), ..Cfg::default() },
        |ev| Act::Val(if ev.id == 0 { 0.0 } else { 10.0 + (ev.n % 7) as f64 }));
    assert_eq!(result.unwrap().best_seen.obj_func_val, 0.0, "the best individual was evicted");
}
''')
rust("c02-last-rejected", "C02",
 "one accepted evaluation among more than a thousand rejected ones",
 "a run with an accepted evaluation ends with 'no individuals' when almost everything was rejected",
 r'''
fn main() {
    let (_, result) = run("type: real\ninit: 0\nscale: 1\n", Cfg { n: Some(1500), ..Cfg::default() },
        |ev| if ev.n == 700 { Act::Val(3.0) } else { Act::Reject });
    assert_eq!(result.expect("one evaluation was accepted").best_seen.obj_func_val, 3.0);
}
''')
# ------------------------------------------------------------------ C03
rust("c03-n0", "C03",
 "an evaluation budget of 0",
 "with N = 0 one evaluation is started",
 r'''
fn main() {
    for conc in [1, 4] {
        let (evals, _) = run("type: real\ninit: 0\nscale: 1\n", Cfg { conc, n: Some(0), ..Cfg::default() }, |_| Act::Val(1.0));
        assert_eq!(evals.len(), 0, "started despite a budget of 0");
    }
}
''')
rust("c03-reeval-free", "C03",
 "sample size above 1 and enough individuals (20) for re-evaluations to happen, with concurrency above 1",
 "re-evaluations are not charged to the budget when they are started, so more evaluations than N are started",
 r'''
fn main() {
    let n = 303;
    let (evals, result) = run("type: real\ninit: 0\nscale: 1\n", Cfg { sample: 3, conc: 6, n: Some(n), ..Cfg::default() }, |ev| Act::Val(ev.n as f64));
    assert!(evals.len() <= n, "{} evaluations started with a budget of {n}", evals.len());
    assert_eq!(evals.len(), n);
    let report = result.unwrap();
    assert_eq!(report.num_obj_func_eval_completed + report.num_obj_func_eval_rejected, n);
}
''')
# ------------------------------------------------------------------ C04
rust("c04-terminate-twice", "C04",
 "two termination requests (for example an interrupt and the time limit, or two interrupts) before the in-flight evaluations have ended",
 "the second request crashes the run instead of being ignored: no best result is returned",
 r'''
use cambrian::meta::{AlgoConfig, AsyncObjectiveFunction};
use cambrian::message::Command;
use futures::SinkExt;

struct Slow;
#[async_trait::async_trait]
impl AsyncObjectiveFunction for Slow {
    async fn evaluate(&self, _: Json, _: async_broadcast::Receiver<()>, seed: u64, _: usize) -> Result<Option<f64>, cambrian::error::Error> {
        // ignores the abort for a while, as a well-meaning objective function that cleans up would
        tokio::time::sleep(std::time::Duration::from_millis(if seed == 0 { 10 } else { 600 })).await;
        Ok(Some(seed as f64))
    }
}

fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let report = rt.block_on(async {
        let (mut cmd, cmd_recv) = futures::channel::mpsc::channel(16);
        let (item_send, mut item_recv) = futures::channel::mpsc::channel(4096);
        let run = cambrian::async_launch::launch(spec("type: real\ninit: 0\nscale: 1\n"), Slow,
            AlgoConfig { individual_sample_size: 1, num_concurrent: 2 }, cmd_recv, item_send, None, None, None);
        let requests = async {
            for _ in 0..2 {
                tokio::time::sleep(std::time::Duration::from_millis(150)).await;
                cmd.send(Command::Terminate).await.unwrap();
            }
            tokio::time::sleep(std::time::Duration::from_secs(20)).await;
        };
        let drain = async { while futures::StreamExt::next(&mut item_recv).await.is_some() {} futures::future::pending::<()>().await };
        tokio::select! { report = run => report, _ = requests => panic!("the run did not end"), _ = drain => unreachable!() }
    });
    assert_eq!(report.expect("a result was accepted").best_seen.obj_func_val, 0.0);
}
''')
cli("c04-time-limit-once", "C04",
 "a time limit together with an output directory and more than one concurrent process",
 "the time limit is ignored: the run goes on starting evaluations",
 r'''
echo '{type: real, init: 0, scale: 1}' > spec.yaml
script obj <<'EOF'
echo "{\"objFuncVal\": $2}"
EOF
timeout 25 "$bin" -s spec.yaml -o out --num-concurrent 2 --terminate-after 1s ./obj > stdout 2> stderr
rc=$?
[ $rc = 0 ] || fail "the run did not end on its time limit (rc $rc)"
[ "$(wc -l < stdout)" = 1 ] || fail "no result"
''')
# ------------------------------------------------------------------ C05
rust("c05-generational", "C05",
 "at least 512 finished evaluations",
 "the evaluation that finishes as the 512th (1024th, ...) is not replaced, so concurrency decays by one each time",
 r'''
fn main() {
    let n = 3000;
    let (evals, result) = run("type: real\ninit: 0\nscale: 1\n", Cfg { conc: 4, n: Some(n), ..Cfg::default() }, |ev| Act::Val(ev.n as f64));
    let report = result.unwrap();
    assert_eq!(report.num_obj_func_eval_completed, n);
    assert_eq!(evals.len(), n);
}
''')
rust("c05-threads-capped", "C05",
 "in-process computation with a concurrency above 6",
 "only 6 of the evaluations handed out really run at the same time",
 r'''
use cambrian::meta::{make_obj_func, AlgoConfig};
use cambrian::termination::TerminationCriterion;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn main() {
    let began = Instant::now();
    let conc = 12;
    let gate = Arc::new((Mutex::new((0usize, false)), Condvar::new()));
    let inner = gate.clone();
    let fun = make_obj_func(move |_: Json| {
        // every evaluation waits (for at most 20 s) until all of them are in progress
        let (lock, cond) = &*inner;
        let mut st = lock.lock().unwrap();
        st.0 += 1;
        if st.0 >= conc { st.1 = true; cond.notify_all(); }
        let until = Instant::now() + Duration::from_secs(20);
        while !st.1 && Instant::now() < until {
            st = cond.wait_timeout(st, Duration::from_millis(100)).unwrap().0;
        }
        Some(1.0)
    });
    let result = cambrian::sync_launch::launch(spec("type: real\ninit: 0\nscale: 1\n"), fun,
        AlgoConfig { individual_sample_size: 1, num_concurrent: conc },
        [TerminationCriterion::NumObjFuncEval(conc)], None, true, None);
    result.unwrap();
    assert!(gate.0.lock().unwrap().1 && began.elapsed() < Duration::from_secs(15), "the {conc} evaluations were never in progress together");
}
''')
# ------------------------------------------------------------------ C06
rust("c06-error-vs-budget", "C06",
 "an evaluation budget and a failure observed after the last evaluation of the budget has been started, with an earlier accepted result",
 "the run ends with a success report instead of the failure",
 r'''
fn main() {
    for conc in [1, 4] {
        let n = 40;
        let (_, result) = run("type: real\ninit: 0\nscale: 1\n", Cfg { conc, n: Some(n), ..Cfg::default() },
            |ev| if ev.n == n - 1 { Act::Fail } else { Act::Val(1.0) });
        match result {
            Err(cambrian::error::Error::Io(_)) => (),
            other => panic!("the failure was not reported: {other:?}"),
        }
    }
}
''')
cli("c06-signal-death", "C06",
 "a child that prints a valid result and is then killed by a signal",
 "a child that died from a signal counts as a success",
 r'''
echo '{type: real, init: 0, scale: 1}' > spec.yaml
script obj <<'EOF'
echo '{"objFuncVal": 1}'
[ "$2" = 5 ] && kill -SEGV $$
exit 0
EOF
timeout 60 "$bin" -s spec.yaml -n 12 ./obj > stdout 2> stderr
rc=$?
[ $rc != 0 ] || fail "a child killed by a signal was taken for a success"
[ $rc != 124 ] || fail "hang"
''')
cli("c06-stdout-first", "C06",
 "a child that prints a rejection and then exits with a non-zero status",
 "the failure counts as a rejection and the run goes on",
 r'''
echo '{type: real, init: 0, scale: 1}' > spec.yaml
script obj <<'EOF'
if [ "$2" = 7 ]; then echo '{"objFuncVal": null}'; exit 3; fi
echo '{"objFuncVal": 1}'
EOF
timeout 60 "$bin" -s spec.yaml -n 12 ./obj > stdout 2> stderr
rc=$?
[ $rc != 0 ] || fail "an evaluation that failed after printing a rejection did not stop the run"
[ $rc != 124 ] || fail "hang"
''')
# ------------------------------------------------------------------ C07
cli("c07-kill-leader", "C07",
 "a child that has started a process of its own, when the evaluation is killed (time limit or end of the run)",
 "only the child itself is killed: the rest of its process group lives on",
 r'''
echo '{type: real, init: 0, scale: 1}' > spec.yaml
script obj <<'EOF'
if [ "$2" = 1 ]; then
  ( sleep 4; echo alive >> survivors ) &
  wait
fi
echo '{"objFuncVal": 1}'
EOF
timeout 60 "$bin" -s spec.yaml -n 3 -k 500ms ./obj > stdout 2> stderr
rc=$?
[ $rc = 0 ] || fail "rc $rc"
sleep 6
[ ! -e survivors ] || fail "a process of the killed child's group was still running"
''')
cli("c07-term", "C07",
 "a child (or a process of its group) that ignores SIGTERM and exceeds the per-evaluation time limit",
 "the group is asked to end instead of being killed, and goes on if it ignores the request",
 r'''
echo '{type: real, init: 0, scale: 1}' > spec.yaml
script obj <<'EOF'
if [ "$2" = 1 ]; then
  trap '' TERM
  sleep 4
  echo alive >> survivors
fi
echo '{"objFuncVal": 1}'
EOF
timeout 60 "$bin" -s spec.yaml -n 3 -k 500ms ./obj > stdout 2> stderr
rc=$?
[ $rc = 0 ] || fail "rc $rc"
sleep 6
[ ! -e survivors ] || fail "the timed-out child ran on"
''')
# ------------------------------------------------------------------ C08
rust("c08-oversample", "C08",
 "sample size of at least 4 and a population of at least 90",
 "an individual is evaluated more often than sample-size times",
 r'''
fn main() {
    let (evals, result) = run("type: real\ninit: 0\nscale: 1\n", Cfg { sample: 4, n: Some(6000), ..Cfg::default() }, |ev| Act::Val((ev.n % 17) as f64));
    let mut count = BTreeMap::new();
    for ev in &evals { *count.entry(ev.id).or_insert(0usize) += 1; }
    let most = count.values().max().unwrap();
    assert!(*most <= 4, "an individual was evaluated {most} times with sample size 4");
    result.unwrap();
}
''')
rust("c08-id-wraps", "C08",
 "a run with more than 4096 individuals",
 "individual ids are used again",
 r'''
fn main() {
    let n = 5000;
    let (evals, _) = run("type: bool\ninit: true\n", Cfg { n: Some(n), conc: 2, ..Cfg::default() }, |ev| Act::Val((ev.n % 3) as f64));
    let ids: BTreeSet<usize> = evals.iter().map(|ev| ev.id).collect();
    assert_eq!(ids.len(), n, "individual ids repeat");
}
''')
rust("c08-seed-is-completed", "C08",
 "64 rejections, after which seeds are derived from the number of accepted evaluations",
 "two evaluations of a run get the same seed",
 r'''
fn main() {
    let n = 400;
    let (evals, _) = run("type: real\ninit: 0\nscale: 1\n", Cfg { n: Some(n), conc: 3, ..Cfg::default() },
        |ev| if ev.n % 2 == 0 { Act::Reject } else { Act::Val(1.0) });
    let seeds: BTreeSet<u64> = evals.iter().map(|ev| ev.seed).collect();
    assert_eq!(seeds.len(), evals.len(), "seeds repeat");
}
''')
# ------------------------------------------------------------------ C09
TWICE = r'''
fn once(yaml: &str, n: usize) -> Vec<(usize, u64, String)> {
    let (evals, _) = run(yaml, Cfg { n: Some(n), ..Cfg::default() },
        |ev| Act::Val(ev.value.to_string().bytes().map(|b| b as f64).sum()));
    evals.into_iter().map(|ev| (ev.id, ev.seed, ev.value.to_string())).collect()
}
'''
rust("c09-std-set", "C09",
 "a resizable map whose parents have different keys, so that the order in which the keys are considered decides",
 "the keys of a recombined map are visited in a randomly seeded hash order",
 TWICE + r'''
fn main() {
    let yaml = "type: anon map\ninitSize: 4\nminSize: 2\nmaxSize: 9\nvalueType:\n  type: real\n  init: 1\n  scale: 1\n";
    let a = once(yaml, 600);
    for _ in 0..5 { assert!(a == once(yaml, 600), "two identical runs differ"); }
}
''')
rust("c09-static-seen", "C09",
 "a second run in the same process",
 "mutation decisions depend on a process-wide counter, so a run depends on what ran before it",
 TWICE + r'''
fn main() {
    let yaml = "a:\n  type: optional\n  initPresent: true\n  valueType:\n    type: bool\n    init: true\nb:\n  type: optional\n  initPresent: false\n  valueType:\n    type: bool\n    init: true\n";
    let a = once(yaml, 3000);
    assert!(a == once(yaml, 3000), "two identical runs differ");
}
''')
rust("c09-types", "C09",
 "a variant with at least three options, in two different processes or map instances",
 "the option a variant switches to is drawn from a randomly seeded hash set",
 TWICE + r'''
fn main() {
    let opt = |n: &str| format!("{n}:\n  type: bool\n  init: true\n");
    let yaml = format!("type: variant\ninit: a\n{}{}{}{}{}", opt("a"), opt("b"), opt("c"), opt("d"), opt("e"));
    let a = once(&yaml, 400);
    for _ in 0..5 { assert!(a == once(&yaml, 400), "two identical runs differ"); }
}
''')
# ------------------------------------------------------------------ C10
rust("c10-initsize", "C10",
 "a resizable map with a maximum but no minimum size, and a larger initial size",
 "an initial size above the maximum is accepted",
 r'''
fn main() {
    let yaml = |size: &str| format!("type: anon map\n{size}\nvalueType:\n  type: bool\n  init: true\n");
    let parse = |size: &str| cambrian::spec_util::from_yaml_str(&yaml(size)).is_ok();
    assert!(parse("initSize: 3\nmaxSize: 3"));
    assert!(!parse("initSize: 4\nminSize: 1\nmaxSize: 3"));
    assert!(!parse("initSize: 4\nmaxSize: 3"), "initSize 4 was accepted with maxSize 3");
}
''')
rust("c10-variant-attr", "C10",
 "a variant one of whose options is called like an attribute of another type ('values', 'scale')",
 "that option silently disappears from the parameter space",
 r'''
fn main() {
    let real = "  type: real\n  init: 1\n  scale: 1\n";
    let s = spec(&format!("type: variant\ninit: other\nother:\n{real}more:\n{real}values:\n{real}scale:\n{real}"));
    for name in ["other", "more", "values", "scale"] {
        let guess = format!("{{\"{name}\": 2.5}}");
        assert!(cambrian::value_util::from_json_str(&guess, &s).is_ok(), "option {name} is missing from the space");
    }
}
''')
rust("c10-enum-unique", "C10",
 "an enum two of whose values differ in case only",
 "one of the two values silently disappears from the parameter space",
 r'''
fn main() {
    let s = spec("type: enum\ninit: b\nvalues: [a, A, b]\n");
    for name in ["a", "A", "b"] {
        assert!(cambrian::value_util::from_json_str(&format!("\"{name}\""), &s).is_ok(), "value {name} is missing from the space");
    }
}
''')
# ------------------------------------------------------------------ C11
rust("c11-variant-first", "C11",
 "a guess whose variant object has a second key with a null value",
 "a variant guess with an unknown extra key is accepted",
 r'''
fn main() {
    let s = spec("type: variant\ninit: a\na:\n  type: bool\n  init: true\nb:\n  type: bool\n  init: true\n");
    let ok = |json: &str| cambrian::value_util::from_json_str(json, &s).is_ok();
    assert!(ok("{\"a\": true}") && ok("{\"b\": false}"));
    assert!(!ok("{\"a\": true, \"b\": false}"));
    assert!(!ok("{\"a\": true, \"zzz\": null}"), "an unknown key was accepted");
    assert!(!ok("{\"a\": true, \"b\": null}"), "a second option was accepted");
}
''')
rust("c11-renumber", "C11",
 "a guess for a resizable map with an element key above 1000000",
 "the element is given another key, so the value does not round-trip (and can overwrite an element)",
 r'''
fn main() {
    let s = spec("type: anon map\ninitSize: 0\nvalueType:\n  type: int\n  init: 1\n  scale: 1\n");
    for json in ["{\"0\":1,\"7\":2}", "{\"999999\":3}", "{\"1000001\":4}", "{\"0\":5,\"123456789012\":6}"] {
        let back = val(&s, json).to_json();
        assert_eq!(back, serde_json::from_str::<Json>(json).unwrap(), "did not round-trip");
    }
}
''')
rust("c11-int-f64", "C11",
 "an integer written with a fraction or exponent, or beyond the i64 range",
 "a guess of the wrong type is accepted for an integer and silently changed",
 r'''
fn main() {
    let s = spec("type: int\ninit: 1\nscale: 1\n");
    let read = |json: &str| cambrian::value_util::from_json_str(json, &s);
    assert!(read("12").is_ok() && read("-9223372036854775808").is_ok());
    for bad in ["1.5", "18446744073709551615", "1e300", "-1e19"] {
        if let Ok(value) = read(bad) { panic!("{bad} was accepted as {}", value.to_json()); }
    }
}
''')
# ------------------------------------------------------------------ C12
rust("c12-array-idx", "C12",
 "recombination of arrays with more than six parents",
 "from the seventh parent on, array elements are taken from the neighbouring position",
 r'''
fn main() {
    let s = spec("type: array\nsize: 4\nvalueType:\n  type: int\n  init: 1\n  scale: 1\n");
    let parents: Vec<_> = (0..12i64).map(|p| val(&s, &json!((0..4).map(|i| i * 1000 + p).collect::<Vec<i64>>()).to_string())).collect();
    let refs: Vec<_> = parents.iter().collect();
    let (mut o, mut rng) = (ops(), rng(3));
    for _ in 0..2000 {
        let child = o.crossover(&s, &refs, 1.0, 0.1, &mut rng).to_json();
        for (i, x) in child.as_array().unwrap().iter().enumerate() {
            assert_eq!(x.as_i64().unwrap() / 1000, i as i64, "element {i} of {child} comes from another position");
        }
    }
}
''')
rust("c12-key-shift", "C12",
 "a resizable map with an element key above 1000",
 "the offspring's element has a key that no parent has",
 r'''
fn main() {
    let s = spec("type: anon map\ninitSize: 0\nvalueType:\n  type: int\n  init: 1\n  scale: 1\n");
    let parents = [val(&s, "{\"1\":1,\"5000\":2}"), val(&s, "{\"2\":3,\"5000\":4}"), val(&s, "{\"5000\":4,\"777\":1}")];
    let refs: Vec<_> = parents.iter().collect();
    let (mut o, mut rng) = (ops(), rng(3));
    for _ in 0..300 {
        let child = o.crossover(&s, &refs, 1.0, 0.3, &mut rng).to_json();
        for key in child.as_object().unwrap().keys() {
            assert!(["1", "2", "777", "5000"].contains(&key.as_str()), "key {key} is not from any parent");
        }
    }
}
''')
rust("c12-optional-default", "C12",
 "an optional part at the same position of more than five parents that all agree on its presence",
 "the offspring lacks a part that all parents have, or has one that none has",
 r'''
fn main() {
    let s = spec("x:\n  type: optional\n  initPresent: true\n  valueType:\n    type: int\n    init: 1\n    scale: 1\ny:\n  type: bool\n  init: true\n");
    let parents: Vec<_> = (0..8).map(|p| val(&s, &format!("{{\"x\":{p},\"y\":{}}}", p % 2 == 0))).collect();
    let refs: Vec<_> = parents.iter().collect();
    let (mut o, mut rng) = (ops(), rng(3));
    for _ in 0..300 {
        let child = o.crossover(&s, &refs, 1.0, 0.3, &mut rng).to_json();
        assert!(!child["x"].is_null(), "the part that all parents have is missing: {child}");
    }
}
''')
# ------------------------------------------------------------------ C13
rust("c13-prob0-const-variant", "C13",
 "a resizable map with a maximum but no minimum size that is at its maximum (more than two elements), and mutation probability 0",
 "mutation with probability 0 removes an element",
 r'''
fn main() {
    let s = spec("type: anon map\ninitSize: 1\nmaxSize: 4\nvalueType:\n  type: int\n  init: 1\n  scale: 1\n");
    let (mut o, mut rng) = (ops(), rng(3));
    for json in ["{}", "{\"0\":1}", "{\"0\":1,\"3\":2,\"4\":3}", "{\"0\":1,\"3\":2,\"4\":3,\"9\":4}"] {
        let v = val(&s, json);
        for _ in 0..50 {
            assert_eq!(o.mutate(&s, &v, 0.0, 1.0, &mut rng).to_json(), v.to_json(), "mutation with probability 0 is not the identity");
        }
    }
}
''')
rust("c13-variant-same-type", "C13",
 "a variant with two options of exactly the same type",
 "switching between them keeps the current value instead of starting from the option's initial value",
 r'''
fn main() {
    let opt = "  type: anon map\n  initSize: 2\n  minSize: 2\n  valueType:\n    type: const\n";
    let s = spec(&format!("type: variant\ninit: a\na:\n{opt}b:\n{opt}"));
    let v = val(&s, "{\"a\":{\"0\":null,\"1\":null,\"2\":null,\"3\":null,\"4\":null,\"5\":null,\"6\":null}}");
    let (mut o, mut rng) = (ops(), rng(3));
    for _ in 0..50 {
        let out = o.mutate(&s, &v, 1.0, 1.0, &mut rng).to_json();
        // the new option starts with 2 elements and is resized by at most one
        let size = out["b"].as_object().expect("switched to b").len();
        assert!(size <= 3, "the new option did not start from its initial value: {out}");
    }
}
''')
rust("c13-int-f64", "C13",
 "integers beyond 2^53 and mutation probability 0 (or a mutation that leaves them alone)",
 "an integer that is not mutated still goes through f64 and changes",
 r'''
fn main() {
    let s = spec("type: int\ninit: 1\nscale: 1\n");
    let (mut o, mut rng) = (ops(), rng(3));
    for x in [5i64, 9_007_199_254_740_993, -9_007_199_254_740_995, i64::MAX - 1] {
        let v = val(&s, &x.to_string());
        assert_eq!(o.mutate(&s, &v, 0.0, 1.0, &mut rng).to_json(), json!(x), "mutation with probability 0 is not the identity");
    }
}
''')
# ------------------------------------------------------------------ C14
rust("c14-try-send", "C14",
 "results that arrive faster than the detailed report is written (more than the channel holds between two turns of the writer)",
 "records of the detailed report are dropped when its queue is full",
 r'''
fn main() {
    let dir = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    for conc in [1usize, 400, 1200] {
        let n = conc * 4 + 100;
        let (evals, result) = run("type: real\ninit: 0\nscale: 1\n", Cfg { conc, n: Some(n), dir: Some(&dir), ..Cfg::default() }, |ev| Act::Val(-(ev.n as f64)));
        result.unwrap();
        let rows = std::fs::read_to_string(dir.join("detailed.csv")).unwrap().lines().count() - 1;
        assert_eq!(rows, evals.len(), "records of the detailed report");
    }
}
''')
rust("c14-count-abort", "C14",
 "rejected results (aborted or not) that arrive while the run is draining",
 "evaluations rejected while draining are missing from the final report's rejected count",
 r'''
fn main() {
    let dir = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let (evals, result) = run("type: real\ninit: 0\nscale: 1\n", Cfg { conc: 6, after_ms: Some(200), dir: Some(&dir), ..Cfg::default() },
        |ev| if ev.n < 3 { Act::Val(1.0) } else { Act::Hold });
    let report = result.unwrap();
    let rows = std::fs::read_to_string(dir.join("detailed.csv")).unwrap().lines().count() - 1;
    assert_eq!(rows, evals.len());
    assert_eq!((report.num_obj_func_eval_completed, report.num_obj_func_eval_rejected), (3, evals.len() - 3));
}
''')
rust("c14-scale-fmt", "C14",
 "an adapted mutation scale so small that a fixed number of decimals shows it as 0",
 "the detailed report shows a mutation scale of 0, which is not positive",
 r'''
fn main() {
    let dir = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let (_, result) = run("type: real\ninit: 1000\nscale: 1000\n", Cfg { n: Some(12000), dir: Some(&dir), ..Cfg::default() },
        |ev| Act::Val(ev.value.as_f64().unwrap().abs()));
    result.unwrap();
    for line in std::fs::read_to_string(dir.join("detailed.csv")).unwrap().lines().skip(1) {
        let scale = line.split(';').nth(6).unwrap();
        if !scale.is_empty() {
            assert!(scale.parse::<f64>().unwrap() > 0.0, "mutation scale {scale} in {line}");
        }
    }
}
''')
# ------------------------------------------------------------------ C15
cli("c15-log-rng", "C15",
 "verbose logging",
 "turning on verbose logging consumes random numbers and so changes the run",
 r'''
echo '{type: real, init: 10, scale: 1}' > spec.yaml
script obj <<'EOF'
echo "$1 $2" >> "$LOG"
echo "{\"objFuncVal\": $(( ($2 * 7919) % 101 ))}"
EOF
export LOG
LOG=quiet timeout 60 "$bin" -s spec.yaml -n 60 ./obj > quiet.out 2> quiet.err || fail "rc $?"
LOG=verbose timeout 60 "$bin" -v -s spec.yaml -n 60 ./obj > verbose.out 2> verbose.err || fail "rc $?"
cmp -s quiet verbose || fail "the runs evaluate different things with and without -v"
cmp -s quiet.out verbose.out || fail "the results differ with and without -v"
''')
rust("c15-mean-scaled", "C15",
 "finite objective values of a magnitude near 1e300",
 "the mean of an individual's sample overflows and the run panics",
 r'''
fn main() {
    for big in [1.0, 1e250, 1e299, -1e299, 1e300, -1e300] {
        let (_, result) = run("type: real\ninit: 0\nscale: 1\n", Cfg { n: Some(50), ..Cfg::default() },
            |ev| Act::Val(if ev.n % 5 == 4 { big } else { ev.n as f64 }));
        result.unwrap();
    }
}
''')
rust("c15-scale-overflow", "C15",
 "a spec scale and adapted mutation scale whose product is not a usable scale (underflows to 0 or overflows)",
 "the run panics instead of leaving the number alone",
 r'''
fn main() {
    for scale in ["1.0e308", "1.0e-320", "5.0e-324", "1.0"] {
        let yaml = format!("type: real\ninit: 0.0\nscale: {scale}\n");
        let (evals, result) = run(&yaml, Cfg { n: Some(4000), ..Cfg::default() }, |ev| Act::Val((ev.n % 13) as f64));
        result.unwrap();
        assert_eq!(evals.len(), 4000);
    }
}
''')
# ------------------------------------------------------------------ C16
cli("c16-dump-arm", "C16",
 "an objective program that fails without having printed anything to stdout, with an output directory",
 "the files holding the failing arguments and output are not written",
 r'''
echo '{type: real, init: 10, scale: 1}' > spec.yaml
script obj <<'EOF'
[ "$2" = 3 ] && { echo oops >&2; exit 9; }
echo '{"objFuncVal": 1}'
EOF
timeout 60 "$bin" -s spec.yaml -n 20 -o out ./obj > stdout 2> stderr
rc=$?
[ $rc != 0 ] && [ $rc != 124 ] || fail "rc $rc"
grep -rq oops out || fail "the failing evaluation's stderr is not in the output directory"
grep -rlqE '(^| )3$' out || fail "the failing evaluation's arguments are not in the output directory"
''')
cli("c16-lossy", "C16",
 "a user argument that is not valid UTF-8",
 "the argument reaches the objective program altered",
 r'''
echo '{type: real, init: 10, scale: 1}' > spec.yaml
script obj <<'EOF'
printf '%s' "$1" > "got.$3"
echo '{"objFuncVal": 1}'
EOF
arg="$(printf 'caf\351\200x')"
printf '%s' "$arg" > want
timeout 60 "$bin" -s spec.yaml -n 2 ./obj "$arg" > stdout 2> stderr || fail "rc $?"
cmp -s want got.0 || fail "the program received another argument"
''')
cli("c16-empty-dir", "C16",
 "an existing output directory that is empty, without --force",
 "the existing directory is used instead of being refused",
 r'''
echo '{type: real, init: 10, scale: 1}' > spec.yaml
script obj <<'EOF'
touch started
echo '{"objFuncVal": 1}'
EOF
mkdir out
timeout 60 "$bin" -s spec.yaml -n 2 -o out ./obj > stdout 2> stderr
rc=$?
[ $rc != 0 ] && [ $rc != 124 ] || fail "an existing output directory was not refused"
[ ! -e started ] || fail "an evaluation was started"
[ -z "$(ls -A out)" ] || fail "the existing directory was written to"
''')
# ------------------------------------------------------------------ C17
rust("c17-enum-same", "C17",
 "an enum with more than four values, mutated with probability 1",
 "the mutated enum can keep its value",
 r'''
fn main() {
    let s = spec("type: enum\ninit: a\nvalues: [a, b, c, d, e, f]\n");
    let (mut o, mut rng) = (ops(), rng(3));
    for name in ["a", "b", "f"] {
        let v = val(&s, &format!("\"{name}\""));
        for _ in 0..200 {
            assert_ne!(o.mutate(&s, &v, 1.0, 1.0, &mut rng).to_json(), v.to_json(), "mutation with probability 1 kept the enum");
        }
    }
}
''')
rust("c17-order", "C17",
 "a population of more than 30 individuals",
 "the parents are handed to selection worst first, so the search is directed at the worst",
 r'''
fn main() {
    let real = |n: &str| format!("{n}:\n  type: real\n  init: 100\n  scale: 10\n");
    let yaml = format!("{}{}{}", real("a"), real("b"), real("c"));
    let f = |v: &Json| v.as_object().unwrap().values().map(|x| x.as_f64().unwrap().powi(2)).sum::<f64>();
    let (_, result) = run(&yaml, Cfg { n: Some(4000), ..Cfg::default() }, |ev| Act::Val(f(&ev.value).min(1e290)));
    let best = result.unwrap().best_seen.obj_func_val;
    assert!(best < 30_000.0 / 1e4, "only reached {best} from 30000");
}
''')
rust("c17-scale-ignored", "C17",
 "a real whose declared scale is far above 1",
 "scales above 1 are ignored, so distant optima are hardly approached",
 r'''
fn main() {
    let s = spec("type: real\ninit: 0\nscale: 1000000\n");
    let (mut o, mut rng) = (ops(), rng(3));
    let v = val(&s, "0");
    let mut steps: Vec<f64> = (0..1001).map(|_| o.mutate(&s, &v, 1.0, 1.0, &mut rng).to_json().as_f64().unwrap().abs()).collect();
    steps.sort_by(|a, b| a.partial_cmp(b).unwrap());
    // half of the steps of a Cauchy distribution are longer than its scale
    assert!(steps[500] > 1e5 && steps[500] < 1e7, "typical step {} with a scale of 1000000", steps[500]);
}
''')
