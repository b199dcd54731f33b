pub mod gencfg;
pub mod model;
pub mod ops;
pub mod oracle;
pub mod props;
pub mod proc;
pub mod report;
pub mod sim;

use report::*;

fn usage() -> ! {
    eprintln!("usage: cverif run PROP [SUITE] | replay FILE | list");
    std::process::exit(2)
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| usage())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["list"] => {
            for p in props::all() {
                for s in &p.suites {
                    println!("{} {} {} {}", p.id, s.name, s.quick, s.thorough);
                }
            }
        }
        ["run", id, rest @ ..] => {
            let only = rest.first().copied();
            if std::env::var_os("CVERIF_SUPERVISED").is_some() {
                let code = run_prop(&find(id), tier(), seed(), only);
                proc::cleanup();
                std::process::exit(code);
            }
            std::process::exit(supervise(id, &args));
        }
        ["replay", file] => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let p = find(j["property"].as_str().unwrap());
            let s = p.suites.iter().find(|s| s.name == j["suite"].as_str().unwrap()).expect("suite");
            install_panic_hook();
            let t = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let (case, r) = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .name("case-replay".into())
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, || run_case(p.id, s, j["seed"].as_u64().unwrap(), j["idx"].as_u64().unwrap(), t, true))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            proc::cleanup();
            for s in &case.samples {
                println!("{}", serde_json::to_string_pretty(s).unwrap());
            }
            match r {
                Ok(Ok(())) => println!("held"),
                Ok(Err(v)) => {
                    println!("[{}] {}", v.sig, v.msg);
                    println!("VIOLATION property={} replay={}", p.id, file);
                    std::process::exit(1);
                }
                Err(e) => {
                    println!("{e}");
                    std::process::exit(2);
                }
            }
        }
        // a spec document on stdin, parsed in a process of its own (deep documents may overflow the stack)
        ["spec"] => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            match cambrian::spec_util::from_yaml_str(&s) {
                Ok(x) => {
                    let t = format!("{:?}", model::M::from_spec(&x.0).canon());
                    println!("accepted {}", t.chars().take(2000).collect::<String>());
                }
                Err(e) => println!("rejected {e}"),
            }
        }
        ["trace", seed] => props::c09::trace_main(seed.parse().unwrap()),
        ["procval", ..] => std::process::exit(proc::procval(&args[2..])),
        ["procrun", ..] => std::process::exit(proc::procrun(&args[2..])),
        _ => usage(),
    }
}

/// Runs the property in a child process, so that an abort or stack overflow of the code under test is
/// a finding too, not the end of the check.
fn supervise(id: &str, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let p = find(id);
    let dir = verif_dir();
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&args[1..])
        .env("CVERIF_SUPERVISED", "1")
        .status()
        .expect("spawn");
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    println!("worker died of signal {sig}");
    if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT {
        return 2; // ended from outside (memory guard, timeout)
    }
    let slots = std::fs::read_to_string(slots_path(&dir, id)).unwrap_or_default();
    let mut last = None;
    for l in slots.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() != 5 {
            continue;
        }
        let (suite, idx) = (f[1], f[3].parse::<u64>().unwrap_or(0));
        last = Some((suite.to_string(), idx));
        // which of the cases that were running is it?
        let v = Viol { sig: String::new(), msg: format!("the process died of signal {sig}") };
        let rp = write_replay(id, suite, seed(), idx, tier(), &v);
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&rp).stdout(std::process::Stdio::null()).status();
        if again.map_or(false, |s| s.signal().is_some()) {
            println!("{suite}#{idx}: crashes with signal {sig}");
            println!("VIOLATION property={id} replay={}", rp.display());
            return 1;
        }
        std::fs::remove_file(&rp).ok();
    }
    if let Some((suite, idx)) = last {
        let v = Viol { sig: String::new(), msg: format!("the process died of signal {sig} (one of several concurrent cases)") };
        let rp = write_replay(id, &suite, seed(), idx, tier(), &v);
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        return 1;
    }
    2
}
