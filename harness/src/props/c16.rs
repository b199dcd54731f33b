//! Command line and child process protocol.
use super::cli::{best_seen_file, check_rows, cli_space, observe, sane, summary_counts, summary_value, with};
use super::*;
use crate::model::*;
use crate::proc::{self, *};
use crate::props::c11::exact_json;
use crate::{ensure, viol};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::json;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::PathBuf;

fn utf8(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

/// what a successful run prints and writes
fn success(r: &Run, m: &M, with_dir: bool) -> R {
    ensure!(r.code == Some(0), "exit {:?}: {}", r.code, short(&r.stderr, 500));
    let Ok(out) = std::str::from_utf8(&r.stdout) else { viol!("stdout is not UTF-8") };
    ensure!(out.ends_with('\n') && out.matches('\n').count() == 1, "stdout is not exactly one line: {out:?}");
    let line = out.trim_end_matches('\n');
    let Some(j) = exact_json(line) else { viol!("stdout is not JSON: {line}") };
    m.conforms(&j).map_err(|e| format!("printed value does not conform: {e}: {line}"))?;
    ensure!(r.log.starts.iter().any(|s| s.json() == line.as_bytes()), "printed value was never evaluated: {line}");
    if with_dir {
        let Some(sum) = r.files.get("summary_report.txt") else { viol!("no summary; files {:?}", r.files.keys()) };
        let sum = utf8(sum);
        ensure!(summary_counts(&sum).is_some() && summary_value(&sum).is_some(), "summary without counts or value: {sum}");
        check_rows(r, |_| Ok(()))?;
        ensure!(r.rows.len() == r.log.starts.len(), "{} records for {} evaluations", r.rows.len(), r.log.starts.len());
        best_seen_file(r, true)?;
        let best = r.files.get("best_seen.json").map(|b| utf8(b));
        ensure!(best.as_deref().map(str::trim_end) == Some(line), "best-seen file holds {best:?}, printed was {line}");
    }
    Ok(())
}

fn argv_ok(r: &Run, m: &M, user: &[OsString]) -> R {
    for s in &r.log.starts {
        let a: Vec<String> = s.argv.iter().map(|x| utf8(x)).collect();
        ensure!(s.argv.len() == user.len() + 3, "the program was started with {} arguments, expected {}: {a:?}", s.argv.len() - 1, user.len() + 2);
        for (x, y) in s.argv[1..].iter().zip(user) {
            ensure!(x.as_slice() == y.as_bytes(), "user argument {:?} arrived as {:?}", y, utf8(x));
        }
        let Some(j) = std::str::from_utf8(s.json()).ok().and_then(exact_json) else { viol!("parameter argument is not JSON: {a:?}") };
        m.conforms(&j).map_err(|e| format!("parameter argument does not conform: {e}: {j}"))?;
        ensure!(s.seed().is_some(), "the last argument is not a decimal seed: {a:?}");
    }
    for row in &r.rows {
        let Some(s) = r.log.starts.iter().find(|s| s.seed() == Some(row.seed)) else { viol!("record with seed {} belongs to no started program", row.seed) };
        ensure!(s.json() == row.value.as_bytes(), "the program was given {}, the record says {}", utf8(s.json()), row.value);
    }
    Ok(())
}

fn hostile_arg(r: &mut StdRng, dashes: bool) -> OsString {
    let plain = [
        "a", "", " ", "  two  words ", "\"", "'", "\\", "\\\\", "$HOME", "`id`", "*", "?", "a;b", "a\nb", "\t", "{}", "{\"a\": 1}", "é", "日本語", "\u{1f600}", "%s", "%n", "!", "#", "~", "a=b", "=", "0", "1",
        "null", "\u{7f}", "\u{1}", "/", "..", "x y", "|", ">", "<", "&",
    ];
    let dashed = ["-", "--", "-n", "--spec-file", "-s", "-x", "--help", "-h", "-V", "--version", "---", "-1", "--force", "-o", "-t=1", "--unknown=2"];
    match r.gen_range(0..10) {
        0 => OsString::from_vec((0..r.gen_range(1..6)).map(|_| r.gen_range(128..=255u8)).collect()),
        1 => OsString::from_vec(vec![b'a', 0xff, b'b', 0xc3]),
        2 => "x".repeat(r.gen_range(1..5000)).into(),
        3 | 4 | 5 if dashes => dashed.choose(r).unwrap().into(),
        _ => plain.choose(r).unwrap().into(),
    }
}

fn args(c: &mut Case) -> R {
    let m = cli_space(&mut c.rng, 25);
    let n = c.rng.gen_range(1..6);
    let mut cli = Cli::new(&m.yaml()).opt(&["-n", &n.to_string()]);
    cli.dashes = c.rng.gen();
    cli.positional_first = c.rng.gen();
    cli.user_args = (0..*[0, 0, 1, 2, 5, 30].choose(&mut c.rng).unwrap()).map(|_| hostile_arg(&mut c.rng, cli.dashes)).collect();
    cli.program = ["cobj", "my program", "prog.sh", "é", "a'b\"c", "$x", "a;b"].choose(&mut c.rng).unwrap().to_string();
    let s = Scratch::new();
    match c.rng.gen_range(0..5) {
        0 => cli.program_path = Some(OsString::from(format!("p/{}", cli.program))),
        1 => cli.program_path = Some(OsString::from(format!("./p/{}", cli.program))),
        2 => {
            cli.program_path = Some(OsString::from(&cli.program));
            cli.env_path = Some(format!("/nonexistent:{}:/usr/bin", s.dir.join("p").display()).into());
        }
        3 => {
            cli.program_path = Some(OsString::from(format!("../p/{}", cli.program)));
            cli.cwd = Some("sub".into());
            s.put("sub/x", b"");
        }
        _ => {}
    }
    if c.rng.gen() {
        cli.out_dir = Some("out".into());
    }
    if c.rng.gen_bool(0.3) {
        cli = cli.opt(&["-v"]);
    }
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    c.count("user_arguments", (cli.user_args.len() * r.log.starts.len()) as u64);
    with(&d, (|| {
        sane(&r)?;
        ensure!(r.log.starts.len() == n, "{} programs started, expected {n}; exit {:?} {}", r.log.starts.len(), r.code, short(&r.stderr, 500));
        argv_ok(&r, &m, &cli.user_args)?;
        success(&r, &m, cli.out_dir.is_some())
    })())
}

// ------------------------------------------------------------------ what a child prints

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Accept(f64, String),
    Reject,
    Fail,
}

fn number(r: &mut StdRng) -> String {
    match r.gen_range(0..10) {
        0 => r.gen_range(-1000i64..1000).to_string(),
        1 => r.gen::<i64>().to_string(),
        2 => r.gen::<u64>().to_string(),
        3 => format!("{}", r.gen_range(-8000..8000) as f64 / 8.0),
        4 => format!("{:e}", r.gen_range(-1e6..1e6f64)),
        5 => format!("{}{}e{}{}", r.gen_range(-9..9), [".0", ".5", ""].choose(r).unwrap(), ["", "+", "-"].choose(r).unwrap(), r.gen_range(0..290)),
        6 => r.gen::<f64>().to_string(),
        7 => (1e300 * r.gen::<f64>()).to_string(),
        8 => (0..r.gen_range(20..200)).map(|i| if i == 0 { '1' } else { char::from(b'0' + r.gen_range(0..10u8)) }).collect(),
        _ => ["0", "-0", "0.0", "-0.0", "1E5", "1e-400", "0e0", "1.7976931348623157e299", "5e-324", "0.1", "123456789.125", "9007199254740993"].choose(r).unwrap().to_string(),
    }
}

/// by construction: what has to become of it
fn output(r: &mut StdRng) -> (Vec<u8>, Want) {
    let ws = |r: &mut StdRng| -> String { (0..*[0, 0, 0, 1, 1, 3].choose(r).unwrap()).map(|_| *[' ', '\n', '\t', '\r'].choose(r).unwrap()).collect() };
    let key = |r: &mut StdRng| -> &'static str {
        if r.gen_bool(0.9) { "\"objFuncVal\"" } else { ["\"\\u006fbjFuncVal\"", "\"objFunc\\u0056al\""].choose(r).unwrap() }
    };
    let obj = |r: &mut StdRng, v: &str| format!("{}{{{}{}{}:{}{}{}}}{}", ws(r), ws(r), key(r), ws(r), ws(r), v, ws(r), ws(r));
    match r.gen_range(0..11) {
        10 => {
            // far apart
            let n = *[4_000, 8_200, 33_000, 66_000, 140_000, 1_100_000].choose(r).unwrap();
            let blank = " ".repeat(n);
            match r.gen_range(0..4) {
                0 => (format!("{blank}{{\"objFuncVal\": 2.5}}").into_bytes(), Want::Accept(2.5, "2.5".into())),
                1 => (format!("{{\"objFuncVal\":{blank}2.5}}{blank}").into_bytes(), Want::Accept(2.5, "2.5".into())),
                2 => (format!("{{\"objFuncVal\": 2.5}}{blank}{{").into_bytes(), Want::Fail),
                _ => (format!("{{\"objFuncVal\": 2.5{blank},\"x\":1}}").into_bytes(), Want::Fail),
            }
        }
        0 | 1 | 2 => {
            let n = number(r);
            let x: f64 = n.parse().unwrap();
            (obj(r, &n).into_bytes(), Want::Accept(x, n))
        }
        3 => (obj(r, "null").into_bytes(), Want::Reject),
        4 => (format!("{}{{{}}}{}", ws(r), ws(r), ws(r)).into_bytes(), Want::Reject),
        5 => {
            // no JSON number at all, or one beyond all doubles
            let v = [
                "NaN", "nan", "Infinity", "-Infinity", "inf", "01", "+1", "1.", ".5", "0x10", "1e999", "-1e999", "1e", "1e+", "--1", "1_000", "1,5", "\"1\"", "\"null\"", "true", "false", "[1]", "[]", "{}", "{\"x\": 1}", "", "Null",
                "NULL", "None", "nul", "1 2", "1f", "'1'", "\"\"", "-",
            ]
            .choose(r)
            .unwrap();
            (obj(r, v).into_bytes(), Want::Fail)
        }
        6 => {
            // unknown fields
            let n = number(r);
            let k = ["x", "objfuncval", "ObjFuncVal", "objFuncVal ", " objFuncVal", "obj_func_val", "", "value", "objFuncVa", "objFuncVall", "seed", "status"].choose(r).unwrap();
            let v = ["1", "null", "\"\"", "{}", "[]"].choose(r).unwrap();
            let t = match r.gen_range(0..3) {
                0 => format!("{{\"objFuncVal\": {n}, \"{k}\": {v}}}"),
                1 => format!("{{\"{k}\": {v}, \"objFuncVal\": {n}}}"),
                _ => format!("{{\"{k}\": {v}}}"),
            };
            (t.into_bytes(), Want::Fail)
        }
        7 => {
            let n = number(r);
            let t = match r.gen_range(0..16) {
                0 => String::new(),
                1 => " \n".into(),
                2 => n,
                3 => format!("[{n}]"),
                4 => format!("[{{\"objFuncVal\": {n}}}]"),
                5 => format!("{{\"objFuncVal\": {n}}}{{}}"),
                6 => format!("{{\"objFuncVal\": {n}}}\n{{\"objFuncVal\": {n}}}\n"),
                7 => format!("{{\"objFuncVal\": {n}}} x"),
                8 => format!("result: {{\"objFuncVal\": {n}}}"),
                9 => format!("{{\"objFuncVal\": {n},}}"),
                10 => format!("{{objFuncVal: {n}}}"),
                11 => format!("{{'objFuncVal': {n}}}"),
                12 => format!("{{\"objFuncVal\" {n}}}"),
                13 => format!("{{\"objFuncVal\": {n}"),
                14 => format!("\u{b}{{\"objFuncVal\": {n}}}"),
                _ => format!("objFuncVal={n}"),
            };
            (t.into_bytes(), Want::Fail)
        }
        8 => {
            let mut b = obj(r, "1").into_bytes();
            // bytes that are no JSON, somewhere
            let at = if r.gen() { b.len() } else { r.gen_range(0..=b.len()) };
            b.insert(at, *[0u8, 0xff, 0xc3, 0x80, 0x1b].choose(r).unwrap());
            if at + 1 == b.len() && r.gen() {
                b.extend(["x", "\n", "{\"objFuncVal\": 1}"].choose(r).unwrap().bytes());
            }
            (b, Want::Fail)
        }
        _ => {
            // cut off
            let t = format!("{{\"objFuncVal\": {}}}", number(r));
            let k = r.gen_range(0..t.len());
            (t.as_bytes()[..k].to_vec(), Want::Fail)
        }
    }
}

fn results(c: &mut Case) -> R {
    let m = cli_space(&mut c.rng, 6);
    let n = c.rng.gen_range(1..8usize);
    let mut plan = serde_json::Map::new();
    let mut wants = vec![];
    for k in 0..n {
        // most runs get somewhere
        let (mut b, mut w) = output(&mut c.rng);
        while k + 1 < n && w == Want::Fail && c.rng.gen_bool(0.85) {
            (b, w) = output(&mut c.rng);
        }
        let mut a = json!({"out": hex(&b)});
        match c.rng.gen_range(0..12) {
            0 if w != Want::Fail && c.rng.gen_bool(0.3) => {
                a["exit"] = json!(c.rng.gen_range(1..=255));
                w = Want::Fail;
            }
            1 if w != Want::Fail && c.rng.gen_bool(0.3) => {
                a["signal"] = json!([1, 2, 6, 9, 11, 13, 15].choose(&mut c.rng).unwrap());
                w = Want::Fail;
            }
            2 => a["err"] = json!(hex(b"some noise\n")),
            3 => a["slow_out"] = json!(b.len() < 60),
            4 => {
                a["reps"] = json!(c.rng.gen_range(1..40));
                a["filler"] = json!(hex([&b" "[..], b"\n", b" \t\r\n"].choose(&mut c.rng).unwrap()));
            }
            _ => {}
        }
        plan.insert(k.to_string(), a);
        wants.push(w);
    }
    let mut cli = Cli::new(&m.yaml()).opt(&["-n", &n.to_string()]);
    cli.plan = json!({"default": {"out": "00"}, "at": plan});
    cli.out_dir = Some("out".into());
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    let fail = wants.iter().position(|w| *w == Want::Fail);
    let upto = fail.map_or(n, |k| k + 1);
    for w in &wants[..upto] {
        c.count(match w { Want::Accept(..) => "outputs_accepted", Want::Reject => "outputs_rejected", Want::Fail => "outputs_failed" }, 1);
    }
    let mut finding = None;
    let res = with(&d, (|| {
        sane(&r)?;
        for (k, w) in wants[..upto].iter().enumerate() {
            let what = format!("evaluation {k} printed {:?} ({})", utf8(&unhex(cli.plan["at"][k.to_string()]["out"].as_str().unwrap())), cli.plan["at"][k.to_string()]);
            let Some(x) = r.log.starts.get(k) else { viol!("evaluation {k} was not started: exit {:?}, {}\n {:?}", r.code, short(&r.stderr, 400), wants) };
            let row = r.rows.iter().find(|row| Some(row.seed) == x.seed());
            match (w, row) {
                (Want::Accept(v, t), Some(row)) => match row.obj {
                    Some(y) if y == *v => {}
                    Some(y) if serde_json::from_str::<f64>(t).ok() == Some(y) => finding = Some(format!("{t} printed by a child is read as {y} instead of {v}")),
                    y => viol!("{what}, recorded as {y:?}"),
                },
                (Want::Reject, Some(row)) => ensure!(row.obj.is_none(), "{what}, recorded as {:?}", row.obj),
                (Want::Fail, Some(row)) => ensure!(row.obj.is_none(), "{what}, recorded as {:?}", row.obj),
                (Want::Fail, None) => {}
                (_, None) => viol!("{what}: no record; exit {:?}, {}", r.code, short(&r.stderr, 400)),
            }
        }
        ensure!(r.log.starts.len() == upto, "{} evaluations started, expected {upto}: exit {:?}, {}", r.log.starts.len(), r.code, short(&r.stderr, 400));
        if let Some(k) = fail {
            ensure!(r.code != Some(0), "evaluation {k} failed ({}) but the exit status is 0", cli.plan["at"][k.to_string()]);
            ensure!(!r.stderr.trim().is_empty(), "no error message");
        } else if wants.iter().any(|w| matches!(w, Want::Accept(..))) {
            success(&r, &m, true)?;
            let acc = wants.iter().filter(|w| matches!(w, Want::Accept(..))).count();
            let cts = summary_counts(&utf8(&r.files["summary_report.txt"]));
            ensure!(cts == Some((acc, n - acc)), "summary counts {cts:?}, expected {acc} and {}", n - acc);
        } else {
            ensure!(r.code != Some(0) && !r.stderr.trim().is_empty(), "success without any accepted evaluation");
        }
        Ok(())
    })());
    res?;
    match finding {
        Some(f) => Err(Viol { sig: "serde_json-float-text".into(), msg: f }),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ what a failure leaves

fn errors(c: &mut Case) -> R {
    let m = cli_space(&mut c.rng, 20);
    let conc = *[1u64, 1, 2, 4].choose(&mut c.rng).unwrap();
    let lead = c.rng.gen_range(0..6u64);
    let mut at = serde_json::Map::new();
    for k in 0..lead {
        at.insert(k.to_string(), json!({"out": {"mod": 50, "sub": 0.0}, "err": hex(b"lead noise"), "pre_ms": c.rng.gen_range(0..4)}));
    }
    let which = lead + c.rng.gen_range(0..conc);
    let noise = |r: &mut StdRng| -> Vec<u8> {
        match r.gen_range(0..6) {
            0 => vec![],
            1 => (0..r.gen_range(1..200)).map(|_| r.gen()).collect(),
            2 => b"Traceback (most recent call last):\n  File \"x\"\n".to_vec(),
            3 => "é日本\u{1f600}\n".repeat(r.gen_range(1..2000)).into_bytes(),
            4 => b"x".to_vec(),
            _ => vec![b'\n'; r.gen_range(1..10)],
        }
    };
    let (out, err) = (noise(&mut c.rng), noise(&mut c.rng));
    let mut f = json!({"out": hex(&out), "err": hex(&err), "pre_ms": c.rng.gen_range(0..20)});
    if c.rng.gen() {
        f["exit"] = json!(c.rng.gen_range(1..=255));
    } else if c.rng.gen_bool(0.2) {
        f["signal"] = json!(9);
    }
    at.insert(which.to_string(), f);
    let mut cli = Cli::new(&m.yaml()).opt(&["--num-concurrent", &conc.to_string(), "-n", "200"]);
    if c.rng.gen_bool(0.3) {
        cli = cli.opt(&["-v"]);
    }
    if c.rng.gen_bool(0.3) {
        cli.user_args = vec!["u1".into(), "".into()];
    }
    // the others are still at work
    cli.plan = json!({"default": {"out": hex(b"{}"), "pre_ms": 40_000}, "at": at});
    if c.rng.gen_bool(0.85) {
        cli.out_dir = Some(["out", "a/b/out", "x y"].choose(&mut c.rng).unwrap().into());
    }
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    with(&d, (|| {
        sane(&r)?;
        ensure!(r.code != Some(0), "evaluation {which} failed but the exit status is 0");
        ensure!(!r.stderr.trim().is_empty(), "no error message");
        let Some(x) = r.log.starts.iter().find(|x| x.n == which) else { viol!("evaluation {which} was never started: {}", short(&r.stderr, 400)) };
        if cli.out_dir.is_none() {
            return Ok(());
        }
        let (arg, seed) = (utf8(x.json()), x.seed().map(|s| s.to_string()).unwrap_or_default());
        let quoted = format!("{:?}", std::ffi::OsStr::from_bytes(x.json()));
        let names: Vec<&String> = r.files.keys().collect();
        let has = |b: &Vec<u8>| {
            let t = utf8(b);
            // as it was passed, or quoted
            (t.contains(&arg) || t.contains(&quoted)) && t.contains(&seed)
        };
        let own = |k: &&String| !["detailed_report.csv", "best_seen.json", "summary_report.txt"].contains(&k.as_str());
        ensure!(r.files.keys().filter(own).any(|k| has(&r.files[k])), "no file holds the arguments {arg} {seed} of the failed evaluation; files {names:?}");
        for (what, b) in [("output", &out), ("error output", &err)] {
            ensure!(b.is_empty() || r.files.keys().filter(own).any(|k| r.files[k] == *b), "no file holds exactly the {what} of the failed evaluation ({} bytes); files {:?}", b.len(), r.files.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>());
        }
        c.count("failure_files_found", 1);
        Ok(())
    })())
}

fn unlaunchable(c: &mut Case) -> R {
    let m = cli_space(&mut c.rng, 10);
    let s = Scratch::new();
    s.put("plain.txt", b"no program");
    s.put("d/x", b"");
    let nox = s.put("noexec", b"#!/bin/sh\necho '{\"objFuncVal\": 1}'\n");
    std::fs::set_permissions(&nox, std::os::unix::fs::PermissionsExt::from_mode(0o644)).unwrap();
    let ghost = s.put("ghost", b"#!/nonexistent/interpreter\n");
    std::fs::set_permissions(&ghost, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
    let p = ["./missing", "/nonexistent/dir/prog", "no-such-program-anywhere", "./d", "./plain.txt", "./noexec", "./plain.txt/x", "./ghost", ""].choose(&mut c.rng).unwrap();
    let conc = c.rng.gen_range(1..5);
    let mut cli = Cli::new(&m.yaml()).opt(&["-n", "20", "--num-concurrent", &conc.to_string()]);
    cli.program_path = Some((*p).into());
    if c.rng.gen() {
        cli.out_dir = Some("out".into());
    }
    if c.rng.gen() {
        cli.user_args = vec!["x".into()];
    }
    let r = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &r, &d);
    with(&format!("program {p:?}: {d}"), (|| {
        sane(&r)?;
        ensure!(r.code != Some(0), "a program that cannot be started, but exit status 0; stdout {:?}", utf8(&r.stdout));
        ensure!(!r.stderr.trim().is_empty(), "no error message");
        Ok(())
    })())
}

/// launching fails only after a while, or only for what is passed
pub fn unlaunchable_later(c: &mut Case) -> R {
    let conc = *[1u64, 1, 2, 4, 12].choose(&mut c.rng).unwrap();
    let cs = conc.to_string();
    let how = *["gone", "directory", "no permission", "no interpreter", "no format", "loop", "dangling", "too long", "no more files"].choose(&mut c.rng).unwrap();
    let mut m = cli_space(&mut c.rng, 10);
    if how == "too long" {
        // one argument may have 128 KiB
        let big = |r: &mut StdRng| "x".repeat(r.gen_range(131_100..140_000));
        let x = big(&mut c.rng);
        m = M::Enum { init: if c.rng.gen() { x.clone() } else { "y".into() }, values: vec!["y".into(), x] };
    }
    let mut cli = Cli::new(&m.yaml()).opt(&["--num-concurrent", &cs, "-n", "400"]);
    if c.rng.gen_bool(0.3) {
        cli = cli.opt(&["--terminate-after", "30s"]);
    }
    if c.rng.gen_bool(0.3) {
        cli = cli.opt(&["-k", "20s"]);
    }
    let at = c.rng.gen_range(0..8u64);
    let mut plan = json!({"default": {"out": {"mod": 50, "sub": 0.0}, "pre_ms": if c.rng.gen() { 0 } else { 3 }}, "at": {}});
    match how {
        "too long" => {}
        "no more files" => {
            cli.nofile = Some(c.rng.gen_range(24..40));
            cli = Cli { opts: vec!["--num-concurrent".into(), "60".into(), "-n".into(), "400".into()], ..cli };
            plan["default"]["pre_ms"] = json!(20_000);
        }
        _ => plan["at"][at.to_string()] = json!({"out": {"mod": 50, "sub": 0.0}, "spoil": how}),
    }
    cli.plan = plan;
    if c.rng.gen_bool(0.7) && how != "no more files" {
        cli.out_dir = Some("out".into());
    }
    cli.limit_s = 25.0;
    let s = Scratch::new();
    let r = proc::run(&s, &cli);
    let d = format!("{how} from evaluation {at} on: {}", cli.describe());
    observe(c, &r, &d);
    c.count(&format!("unlaunchable_{}", how.replace(' ', "_")), 1);
    with(&d, (|| {
        ensure!(!r.hung, "the run goes on although the program cannot be started; {} evaluations so far", r.log.starts.len());
        sane(&r)?;
        if how != "too long" && how != "no more files" {
            ensure!(r.log.spoilt.is_some(), "evaluation {at} was never started: exit {:?}, {}", r.code, short(&r.stderr, 300));
        }
        ensure!(r.log.starts.len() < 400, "?");
        ensure!(r.code != Some(0), "a program that cannot be started any more, but exit status 0; stdout {:?}", short(&utf8(&r.stdout), 300));
        ensure!(!r.stderr.trim().is_empty(), "no error message");
        ensure!(r.survivors.is_empty(), "still alive: {}", r.survivors.join("; "));
        Ok(())
    })())
}

// ------------------------------------------------------------------ output directories

fn out_dirs(c: &mut Case) -> R {
    let m = cli_space(&mut c.rng, 10);
    let s = Scratch::new();
    // neighbours nobody may touch
    s.put("keep/a.txt", b"neighbour a");
    s.put("keep/deep/b.txt", b"neighbour b");
    s.put("parent/keep.txt", b"neighbour c");
    let mut o: PathBuf = ["parent/out", "out", "out dir", "parent/éé", "out ", "parent/ out", "out\n", "out.d", ".out", "parent/-o", "o'u\"t$", "*", "out\\", "%s{}", "Ou\tt", "~"].choose(&mut c.rng).unwrap().into();
    let mut kind = c.rng.gen_range(0..9);
    if [5, 7, 8].contains(&kind) && c.rng.gen_bool(0.3) {
        // not UTF-8
        use std::os::unix::ffi::OsStrExt;
        o = PathBuf::from(std::ffi::OsStr::from_bytes([&b"out\xff"[..], b"\xc3(", b"parent/\xf0\x9f x"].choose(&mut c.rng).unwrap()));
    }
    let force = c.rng.gen_bool(0.5);
    let abs = s.dir.join(&o);
    match kind {
        0 => {
            s.put(&o.join("old.txt").to_string_lossy(), b"old content");
            s.put(&o.join("best_seen.json").to_string_lossy(), b"old best");
            s.put(&o.join("sub/detailed_report.csv").to_string_lossy(), b"old report");
        }
        1 => {
            std::fs::create_dir_all(&abs).unwrap();
            s.own(&abs);
        }
        2 => {
            s.put(&o.to_string_lossy(), b"a file");
        }
        3 => {
            std::os::unix::fs::symlink(s.dir.join("keep"), &abs).unwrap();
            s.own(&abs);
        }
        4 => {
            for f in ["summary_report.txt", "detailed_report.csv", "best_seen.json", "failed_obj_func_arg", "failed_obj_func_stdout", "failed_obj_func_stderr"] {
                s.put(&o.join(f).to_string_lossy(), format!("old {f} ").repeat(c.rng.gen_range(1..2000)).as_bytes());
            }
        }
        5 => kind = 100,
        6 => {
            std::os::unix::fs::symlink("nowhere", &abs).unwrap();
            s.own(&abs);
        }
        _ => kind = 101,
    }
    let exists = kind < 100;
    s.own(&s.dir.join("parent"));
    let mut cli = Cli::new(&m.yaml()).opt(&["-n", &c.rng.gen_range(1..5).to_string()]);
    let mut o2 = o.clone();
    if kind == 101 {
        o2 = o.join("new/nested/deep");
    }
    let arg: OsString = match c.rng.gen_range(0..4) {
        0 => s.dir.join(&o2).into_os_string(),
        1 => o2.clone().into_os_string(),
        2 => PathBuf::from(".").join(&o2).into_os_string(),
        // a trailing slash would mean the target of a link
        _ if kind != 2 && kind != 3 && kind != 6 => {
            let mut t = o2.clone().into_os_string();
            t.push("/");
            t
        }
        _ => o2.clone().into_os_string(),
    };
    cli.opts.push("-o".into());
    cli.opts.push(arg);
    if force {
        cli = cli.opt(&[["-f", "--force"].choose(&mut c.rng).unwrap()]);
    }
    let failing = c.rng.gen_bool(0.25);
    if failing {
        cli.plan = json!({"default": {"out": hex(b"nonsense")}});
    }
    let before = read_tree(&s.dir);
    let meta = |p: &PathBuf| std::fs::symlink_metadata(p).ok().map(|m| {
        use std::os::unix::fs::MetadataExt;
        (m.ino(), m.mtime(), m.mtime_nsec(), m.mode(), m.nlink())
    });
    let meta_before = meta(&abs);
    let mut r = proc::run(&s, &cli);
    let after = read_tree(&s.dir);
    let out_files = read_tree(&s.dir.join(&o2));
    r.files = out_files;
    r.rows = r.files.get("detailed_report.csv").map(|b| utf8(b).lines().skip(1).filter_map(parse_row).collect()).unwrap_or_default();
    let d = format!("output directory case {kind}, force {force}: {}", cli.describe());
    observe(c, &r, &d);
    c.count(&format!("case_{kind}{}", if force { "_force" } else { "" }), 1);
    with(&d, (|| {
        sane(&r)?;
        for (k, v) in &before {
            // beside the output directory nothing changes
            let inside = PathBuf::from(k.trim_end_matches(['/', '@'])).starts_with(&o);
            if !inside {
                ensure!(after.get(k) == Some(v), "{k} beside the output directory was changed or removed");
            }
        }
        if exists && !force {
            ensure!(r.code != Some(0), "an existing output directory was not refused");
            ensure!(!r.stderr.trim().is_empty(), "no error message");
            ensure!(r.log.starts.is_empty(), "{} evaluations started although the output directory was refused", r.log.starts.len());
            for (k, v) in &before {
                ensure!(after.get(k) == Some(v), "{k} was changed or removed although the output directory was refused");
            }
            for k in after.keys() {
                ensure!(before.contains_key(k) || k.starts_with("p/") || k == "spec.yaml", "{k} was created although the output directory was refused");
            }
            ensure!(meta(&abs) == meta_before, "the refused output directory was modified");
            c.count("refused", 1);
        } else if !exists || kind == 0 || kind == 1 || kind == 4 {
            if failing {
                ensure!(r.code != Some(0), "exit 0");
                ensure!(r.files.values().any(|b| b == b"nonsense"), "no file holds the output of the failed evaluation: {:?}", r.files.keys());
            } else {
                success(&r, &m, true)?;
            }
            for (k, v) in &r.files {
                ensure!(!utf8(v).contains(&format!("old {k} ")), "file {k} still holds something old: {}", short(&utf8(v), 200));
            }
            if exists {
                c.count("overwritten", 1);
            }
        }
        Ok(())
    })())
}

// ------------------------------------------------------------------ invalid options

fn invalid(c: &mut Case) -> R {
    let m = cli_space(&mut c.rng, 10);
    let s = Scratch::new();
    s.put("adir/x", b"");
    let yaml = m.yaml();
    let mut cli = Cli::new(&yaml);
    // some valid company
    let r = &mut c.rng;
    let mut good: Vec<(&str, &str)> = vec![("-n", "5"), ("--num-concurrent", "2"), ("--sample-size", "2"), ("-t", "1"), ("--terminate-after", "5s"), ("-k", "5 s")];
    let bad: Vec<(&str, &[&str])> = vec![
        ("--num-concurrent", &["0", "-1", "1.5", "x", "", "18446744073709551616", "1e3", "0x2", "NaN"]),
        ("--sample-size", &["0", "-1", "0.5", "one", "", "99999999999999999999999"]),
        ("-t", &["NaN", "nan", "inf", "-inf", "infinity", "-infinity", "+inf", "x", "", "1,5", "1e999", "-1e999"]),
        ("-n", &["-1", "1.5", "abc", "", "18446744073709551616", "1e3", "NaN"]),
        ("--terminate-after", &["soon", "5 parsecs", "x"]),
        ("-k", &["soon", "5 parsecs", "x"]),
        ("-s", &["missing.yaml", "adir", "/nonexistent/spec.yaml", ""]),
        ("--initial-guess", &["{", "nonsense", "", "{\"a\":}", "[1,]", "'x'", "NaN"]),
        ("--no-such-option", &["1"]),
        ("--maxx", &["3"]),
    ];
    let (o, vs) = bad.choose(r).unwrap();
    let v = vs.choose(r).unwrap();
    good.retain(|g| g.0 != *o && (g.0 == "-n" || r.gen_bool(0.3)));
    let mut opts: Vec<OsString> = vec![];
    for (k, x) in &good {
        opts.push(k.into());
        opts.push(x.into());
    }
    let long = match *o {
        "-t" => "--target-obj-func-val",
        "-n" => "--max-obj-func-eval",
        "-k" => "--kill-obj-func-after",
        "-s" => "--spec-file",
        x => x,
    };
    let at = r.gen_range(0..=opts.len() / 2) * 2;
    opts.insert(at, format!("{long}={v}").into());
    let mut what = format!("{long}={v}");
    match r.gen_range(0..14) {
        0 => {
            // an ill-formed spec instead
            opts.remove(at);
            cli.spec = ["", "{", "type: real\n", "type: real\ninit: 5\nscale: 0\n", "type: int\ninit: 0\nscale: 1\nmin: 3\n", "a: {type: nope}\n", "- a\n", "3\n", "type: bool\ninit: true\nextra: 1\n"].choose(r).unwrap().to_string();
            what = format!("spec {:?}", cli.spec);
            if cli.spec.is_empty() || cli.spec == "type: real\n" {
                // what an empty document or missing attributes mean is left open
                return Ok(());
            }
        }
        1 => {
            opts.remove(at);
            opts.push("NO-SPEC".into());
            // a spec option that is not there at all
            opts.push("--spec-filex=1".into());
            what = "no spec".into();
        }
        2 => {
            opts.remove(at);
            cli.program_path = Some("--no-such-flag".into());
            what = "unknown flag for the program".into();
        }
        3 => {
            opts.remove(at);
            let Some((t, why)) = super::c11::bad_text(r, &m) else { return Ok(()) };
            if t.contains('\0') {
                return Ok(());
            }
            opts.push(format!("--initial-guess={t}").into());
            what = format!("guess {t} ({why})");
        }
        _ => {}
    }
    cli.opts = opts;
    if r.gen_bool(0.4) {
        cli.out_dir = Some("out".into());
    }
    if r.gen_bool(0.2) {
        cli = cli.opt(&["-v"]);
    }
    let run = proc::run(&s, &cli);
    let d = cli.describe();
    observe(c, &run, &d);
    c.count(&format!("invalid {}", what.split(['=', ' ']).next().unwrap()), 1);
    with(&format!("{what}: {d}"), (|| {
        sane(&run)?;
        ensure!(run.log.starts.is_empty(), "{} evaluations were started with an invalid option", run.log.starts.len());
        ensure!(run.code != Some(0), "an invalid option is accepted: exit {:?}", run.code);
        ensure!(!run.stderr.trim().is_empty(), "no error message");
        Ok(())
    })())
}

/// the same through the library: invalid or conflicting criteria and configurations
fn invalid_lib(c: &mut Case) -> R {
    use cambrian::meta::AlgoConfigBuilder;
    use cambrian::termination::TerminationCriterion as T;
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use std::sync::Arc;
    let r = &mut c.rng;
    let m = cli_space(r, 8);
    let some = |r: &mut StdRng| -> T {
        match r.gen_range(0..3) {
            0 => T::NumObjFuncEval(r.gen_range(0..4)),
            1 => T::TargetObjFuncVal(r.gen_range(-3..3) as f64),
            _ => T::TerminateAfter(std::time::Duration::from_secs(20)),
        }
    };
    let n = r.gen_range(1..4);
    let mut t: Vec<T> = (0..n).map(|_| some(r)).collect();
    let mut bad = None;
    let kinds: Vec<_> = t.iter().map(std::mem::discriminant).collect();
    if (1..kinds.len()).any(|i| kinds[..i].contains(&kinds[i])) {
        bad = Some("two criteria of one kind");
    }
    if r.gen_bool(0.3) {
        let x = *[f64::NAN, f64::INFINITY, f64::NEG_INFINITY].choose(r).unwrap();
        let at = r.gen_range(0..=t.len());
        t.insert(at, T::TargetObjFuncVal(x));
        bad = Some("a target that is not finite");
    }
    if !t.iter().any(|x| matches!(x, T::NumObjFuncEval(_))) {
        t.push(T::NumObjFuncEval(3));
    }
    let (nc, ss) = (*[0usize, 1, 1, 2, 3].choose(r).unwrap(), *[0usize, 1, 1, 2].choose(r).unwrap());
    let mut b = AlgoConfigBuilder::new();
    b.num_concurrent(nc).individual_sample_size(ss);
    let built = b.build();
    let d = format!("criteria {t:?}, num_concurrent {nc}, sample size {ss}");
    c.note = d.clone();
    c.distinct(&d);
    c.sample(|| json!({"criteria": d}));
    let cfg = match built {
        Ok(_) if nc == 0 || ss == 0 => viol!("a configuration with num_concurrent {nc} and sample size {ss} is accepted"),
        Ok(x) => x,
        Err(e) if nc == 0 || ss == 0 => {
            ensure!(!e.to_string().trim().is_empty(), "error without a description");
            c.count("configurations_rejected", 1);
            return Ok(());
        }
        Err(e) => viol!("a valid configuration is rejected: {e} ({d})"),
    };
    let calls = Arc::new(AtomicU64::new(0));
    let k = calls.clone();
    let f = cambrian::meta::make_obj_func(move |_v| {
        k.fetch_add(1, SeqCst);
        Some(7.0)
    });
    let res = cambrian::sync_launch::launch(cambrian::spec::Spec(m.to_spec()), f, cfg, t.clone(), None, true, None);
    match (bad, res) {
        (Some(why), Ok(_)) => viol!("{why} is accepted: {d}"),
        (Some(why), Err(e)) => {
            ensure!(calls.load(SeqCst) == 0, "{} evaluations were started in spite of {why}: {d}", calls.load(SeqCst));
            ensure!(!e.to_string().trim().is_empty(), "error without a description");
            c.count("criteria_rejected", 1);
        }
        (None, Err(e)) => {
            // nothing evaluated
            ensure!(t.iter().any(|x| matches!(x, T::NumObjFuncEval(n) if *n < ss)) || ss > 1, "{d}: {e}");
        }
        (None, Ok(_)) => c.count("criteria_accepted", 1),
    }
    Ok(())
}

/// single evaluations by a program, asked for through the library: any parameter set, any seed
fn values(c: &mut Case) -> R {
    let m = gen_space(&mut c.rng, 20);
    let n = c.rng.gen_range(1..12);
    let cases: Vec<(serde_json::Value, u64)> = (0..n)
        .map(|_| {
            let v = if c.rng.gen() { cambrian::value::Value(m.gen_node(&mut c.rng, 6)).to_json() } else { super::c11::any_json(&mut c.rng, 3) };
            let seed = match c.rng.gen_range(0..4) {
                0 => *[0, 1, 9, 10, 255, 256, 65_535, 65_536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX].choose(&mut c.rng).unwrap(),
                1 => c.rng.gen::<u64>() >> c.rng.gen_range(0..64),
                _ => c.rng.gen(),
            };
            (v, seed)
        })
        .collect();
    let vals = [0.0, 1.0, -2.5, 1e300, -1e-300, 5e-324, 123456789.125];
    let outs: Vec<Option<f64>> = (0..n).map(|_| c.rng.gen_bool(0.8).then(|| *vals.choose(&mut c.rng).unwrap())).collect();
    let mut cli = Cli::new("");
    cli.lib = Some("values");
    cli.opts = vec!["-s".into(), "cases.json".into()];
    cli.user_args = (0..c.rng.gen_range(0..4)).map(|_| hostile_arg(&mut c.rng, true)).filter(|a| a.to_str().is_some()).collect();
    let at: serde_json::Map<String, serde_json::Value> =
        outs.iter().enumerate().map(|(k, o)| (k.to_string(), json!({"out": o.map_or("{}".to_string(), |x| format!("{{\"objFuncVal\": {x:e}}}")).bytes().map(|b| format!("{b:02x}")).collect::<String>()}))).collect();
    cli.plan = json!({"default": {}, "at": at});
    let s = Scratch::new();
    s.put("cases.json", serde_json::to_string(&cases).unwrap().as_bytes());
    let r = proc::run(&s, &cli);
    let d = format!("{} cases {}", cli.describe(), short(&serde_json::to_string(&cases).unwrap(), 1500));
    observe(c, &r, &d);
    c.count("single_evaluations", n as u64);
    with(&d, (|| {
        sane(&r)?;
        ensure!(r.code == Some(0) && r.log.starts.len() == n, "{} programs started for {n} evaluations; {:?} {}", r.log.starts.len(), r.code, short(&r.stderr, 500));
        let out = utf8(&r.stdout);
        ensure!(out.lines().count() == n, "{} results for {n} evaluations", out.lines().count());
        for (((v, seed), o), (st, line)) in cases.iter().zip(&outs).zip(r.log.starts.iter().zip(out.lines())) {
            let a: Vec<String> = st.argv.iter().map(|x| utf8(x)).collect();
            ensure!(st.argv.len() == cli.user_args.len() + 3, "the program was started with {a:?}");
            for (x, y) in st.argv[1..].iter().zip(&cli.user_args) {
                ensure!(x.as_slice() == y.as_bytes(), "user argument {y:?} arrived as {:?}", utf8(x));
            }
            ensure!(st.seed() == Some(*seed), "seed {seed} arrived as {:?}", a.last());
            let got = std::str::from_utf8(st.json()).ok().and_then(exact_json);
            ensure!(got.as_ref().is_some_and(|g| same_json(g, v)), "parameter set {v} arrived as {}", utf8(st.json()));
            let want = o.map_or("rejected".to_string(), |x| format!("value {:016x}", x.to_bits()));
            ensure!(line == want, "the program printed {o:?} and the evaluation ended with {line}, expected {want}");
        }
        Ok(())
    })())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "distinct runs of the real binary (command line, plan of the scripted program, seeds and durations of its children), and distinct library configurations",
        assumptions: &[
            "left open by the statement and not judged: a bare null, duplicated objFuncVal keys, a byte order mark, symbolic links as output directory with --force, files that --force leaves from an earlier run",
            "a number printed by a child that serde_json (as configured) misreads by an ulp is the recorded finding serde_json-float-text",
        ],
        suites: vec![
            suite("args", 500, 15000, args).threads(12),
            suite("results", 1200, 40000, results).threads(12),
            suite("errors", 400, 12000, errors).threads(16),
            suite("unlaunchable", 100, 3000, unlaunchable).threads(12),
            suite("unlaunchable_later", 150, 3000, unlaunchable_later).threads(12),
            suite("out_dirs", 500, 15000, out_dirs).threads(12),
            suite("values", 300, 8000, values).threads(12),
            suite("invalid", 800, 20000, invalid).threads(12),
            suite("invalid_lib", 1000, 30000, invalid_lib),
        ],
    }
}
