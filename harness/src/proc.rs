//! Runs the real cambrian binary as an unprivileged user in a scratch directory, with the scripted
//! objective program (bin/cobj.rs), and records everything that can be observed from outside.
use crate::report::verif_dir;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io::Read;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn now() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}
pub fn cobj_hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}

struct Base {
    dir: PathBuf,
    /// users of their own for every worker, so that nothing the code under test kills or deletes is real
    setuid: bool,
}

fn base() -> &'static Base {
    static B: OnceLock<Base> = OnceLock::new();
    B.get_or_init(|| {
        // left by earlier runs that were ended from outside
        if let Ok(d) = std::fs::read_dir(std::env::temp_dir()) {
            for e in d.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if let Some(p) = n.strip_prefix("cverif-").and_then(|x| x.parse::<i32>().ok()) {
                    if !Path::new(&format!("/proc/{p}")).exists() {
                        std::fs::remove_dir_all(e.path()).ok();
                    }
                }
            }
        }
        let dir = std::env::temp_dir().join(format!("cverif-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755)).unwrap();
        let cam = verif_dir().join("target-cli/debug/cambrian");
        std::fs::copy(cam, dir.join("cambrian")).expect("cambrian binary");
        let cobj = std::env::current_exe().unwrap().parent().unwrap().join("cobj");
        std::fs::copy(cobj, dir.join("cobj")).expect("cobj binary");
        std::fs::copy(std::env::current_exe().unwrap(), dir.join("cverif")).expect("own binary");
        for f in ["cambrian", "cobj", "cverif"] {
            std::fs::set_permissions(dir.join(f), std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        let setuid = Command::new("/bin/true").uid(61000).gid(61000).status().map_or(false, |s| s.success());
        if std::env::var_os("VERBOSE").is_some() && !setuid {
            println!("(no unprivileged users here)");
        }
        Base { dir, setuid }
    })
}

pub fn cleanup() {
    let d = std::env::temp_dir().join(format!("cverif-{}", std::process::id()));
    if d.exists() {
        std::fs::remove_dir_all(d).ok();
    }
}

/// a user id no other running case has
struct Uid(u32);
static FREE: Mutex<Vec<u32>> = Mutex::new(Vec::new());
static NEXT: AtomicU32 = AtomicU32::new(0);
impl Uid {
    fn get() -> Uid {
        let k = FREE.lock().unwrap().pop();
        // processes of several checks at a time must not meet
        Uid(k.unwrap_or_else(|| 100_000 + (std::process::id() % 40_000) * 64 + NEXT.fetch_add(1, SeqCst)))
    }
}
impl Drop for Uid {
    fn drop(&mut self) {
        FREE.lock().unwrap().push(self.0);
    }
}

#[derive(Clone, Debug)]
pub struct Proc {
    pub pid: i32,
    pub start: u64,
    pub pgrp: i32,
    pub ppid: i32,
    pub state: char,
    pub uid: u32,
    pub comm: String,
}

pub fn stat(pid: i32) -> Option<Proc> {
    let s = std::fs::read(format!("/proc/{pid}/stat")).ok()?;
    let s = String::from_utf8_lossy(&s).to_string();
    let i = s.rfind(')')?;
    let f: Vec<&str> = s[i + 2..].split(' ').collect();
    let uid = std::os::unix::fs::MetadataExt::uid(&std::fs::metadata(format!("/proc/{pid}")).ok()?);
    Some(Proc {
        pid,
        start: f.get(19)?.parse().ok()?,
        pgrp: f.get(2)?.parse().ok()?,
        ppid: f.get(1)?.parse().ok()?,
        state: f[0].chars().next()?,
        uid,
        comm: s[s.find('(')? + 1..i].to_string(),
    })
}

fn all_procs() -> Vec<Proc> {
    let Ok(d) = std::fs::read_dir("/proc") else { return vec![] };
    d.flatten().filter_map(|e| e.file_name().to_str()?.parse().ok()).filter_map(stat).collect()
}

fn real_uid(pid: i32) -> Option<u32> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/status")).ok()?;
    s.lines().find_map(|l| l.strip_prefix("Uid:")).and_then(|l| l.split_whitespace().next()?.parse().ok())
}

pub struct Scratch {
    pub dir: PathBuf,
    uid: Uid,
}

impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let uid = Uid::get();
        let dir = base().dir.join(format!("r{}", N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&dir).unwrap();
        let s = Scratch { dir, uid };
        s.own(&s.dir);
        s
    }
    pub fn own(&self, p: &Path) {
        if base().setuid {
            std::os::unix::fs::lchown(p, Some(self.uid.0), Some(self.uid.0)).ok();
        }
    }
    pub fn put(&self, name: &str, b: &[u8]) -> PathBuf {
        let p = self.dir.join(name);
        if let Some(d) = p.parent() {
            if !d.exists() {
                std::fs::create_dir_all(d).unwrap();
                let mut x = d;
                while x != self.dir {
                    self.own(x);
                    x = x.parent().unwrap();
                }
            }
        }
        std::fs::write(&p, b).unwrap();
        self.own(&p);
        p
    }
    fn mine(&self) -> Vec<Proc> {
        if !base().setuid {
            return vec![];
        }
        all_procs().into_iter().filter(|p| p.uid == self.uid.0 || real_uid(p.pid) == Some(self.uid.0)).collect()
    }
    fn kill_all(&self, extra: &[(i32, u64)]) {
        for _ in 0..200 {
            let mut any = false;
            for p in self.mine() {
                if p.state != 'Z' {
                    any = true;
                    unsafe { libc::kill(p.pid, libc::SIGKILL) };
                }
            }
            for (pid, st) in extra {
                if stat(*pid).map_or(false, |p| p.start == *st && p.state != 'Z') {
                    any = true;
                    unsafe { libc::kill(*pid, libc::SIGKILL) };
                }
            }
            if !any {
                break;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        self.kill_all(&[]);
        std::fs::remove_dir_all(&self.dir).ok();
    }
}

#[derive(Clone, Debug)]
pub struct Start {
    pub n: u64,
    pub pid: i32,
    pub start: u64,
    pub pgrp: i32,
    pub at: u64,
    pub argv: Vec<Vec<u8>>,
    pub end: Option<u64>,
}

impl Start {
    pub fn json(&self) -> &[u8] {
        &self.argv[self.argv.len() - 2]
    }
    pub fn seed(&self) -> Option<u64> {
        let s = std::str::from_utf8(self.argv.last()?).ok()?;
        let v: u64 = s.parse().ok()?;
        (v.to_string() == s).then_some(v)
    }
}

#[derive(Clone, Debug)]
pub struct Log {
    pub starts: Vec<Start>,
    /// (evaluation, pid, start time, left the group)
    pub grand: Vec<(u64, i32, u64, bool)>,
    pub barrier_failures: Vec<String>,
    pub alive_after_timeout: Vec<String>,
    /// since when the program cannot be started any more
    pub spoilt: Option<u64>,
}

pub fn read_log(dir: &Path) -> Log {
    let mut l = Log { starts: vec![], grand: vec![], barrier_failures: vec![], alive_after_timeout: vec![], spoilt: None };
    let s = std::fs::read_to_string(dir.join("log")).unwrap_or_default();
    for line in s.lines() {
        let f: Vec<&str> = line.split(' ').collect();
        match f[0] {
            "S" => l.starts.push(Start {
                n: f[1].parse().unwrap(),
                pid: f[2].parse().unwrap(),
                start: f[3].parse().unwrap(),
                pgrp: f[4].parse().unwrap(),
                at: f[5].parse().unwrap(),
                argv: f[6..].iter().map(|x| unhex(&x[1..])).collect(),
                end: None,
            }),
            "G" => l.grand.push((f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap(), f[4] == "1")),
            "E" => {
                let n: u64 = f[1].parse().unwrap();
                if let Some(x) = l.starts.iter_mut().find(|x| x.n == n) {
                    x.end = Some(f[2].parse().unwrap());
                }
            }
            "B" => l.barrier_failures.push(line.into()),
            "V" => l.spoilt = f[2].parse().ok(),
            "A" => l.alive_after_timeout.push(line.into()),
            _ => {}
        }
    }
    l
}

#[derive(Clone, Debug)]
pub struct Run {
    pub args: Vec<OsString>,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub log: Log,
    pub wall: f64,
    pub hung: bool,
    /// processes that outlived the run, with what they are
    pub survivors: Vec<String>,
    pub files: BTreeMap<String, Vec<u8>>,
    pub began: u64,
    pub sigint_at: Option<u64>,
    /// of the detailed report
    pub rows: Vec<Row>,
}

#[derive(Clone, Debug)]
pub struct Row {
    pub id: usize,
    pub time: f64,
    pub value: String,
    pub seed: u64,
    pub obj: Option<f64>,
    pub obj_text: String,
    pub raw: String,
}

pub fn parse_row(row: &str) -> Option<Row> {
    let h: Vec<&str> = row.splitn(8, ';').collect();
    let t: Vec<&str> = h.get(7)?.rsplitn(3, ';').collect();
    if t.len() != 3 {
        return None;
    }
    Some(Row {
        id: h[0].parse().ok()?,
        time: h[1].parse().ok()?,
        value: t[2].to_string(),
        seed: t[1].parse().ok()?,
        obj: if t[0].is_empty() { None } else { Some(t[0].parse().ok()?) },
        obj_text: t[0].to_string(),
        raw: row.to_string(),
    })
}

#[derive(Clone, Debug)]
pub enum Sig {
    Never,
    /// SIGINT once so many evaluations have started, and then so many ms later; so many times
    AfterStarts(u64, u64, u32),
}

#[derive(Clone, Debug)]
pub struct Cli {
    pub spec: String,
    pub opts: Vec<OsString>,
    pub user_args: Vec<OsString>,
    /// end the options with `--`
    pub dashes: bool,
    pub plan: J,
    pub program: String,
    /// None: the scripted program; otherwise this path is given to cambrian instead
    pub program_path: Option<OsString>,
    pub out_dir: Option<PathBuf>,
    pub sig: Sig,
    pub limit_s: f64,
    pub cwd: Option<PathBuf>,
    pub env_path: Option<OsString>,
    /// other environment variables, one processor only
    pub foreign: bool,
    /// limit on open files
    pub nofile: Option<u64>,
    /// where the positional arguments go
    pub positional_first: bool,
    /// not the command-line tool: the same through the library, with logging at this level
    pub lib: Option<&'static str>,
}

impl Cli {
    pub fn new(spec: &str) -> Cli {
        Cli {
            spec: spec.into(),
            opts: vec![],
            user_args: vec![],
            dashes: false,
            plan: json!({"default": {"out": {"mod": 1000}}}),
            program: "cobj".into(),
            program_path: None,
            out_dir: None,
            sig: Sig::Never,
            limit_s: 90.0,
            cwd: None,
            env_path: None,
            foreign: false,
            nofile: None,
            positional_first: false,
            lib: None,
        }
    }
    pub fn opt(mut self, o: &[&str]) -> Cli {
        self.opts.extend(o.iter().map(OsString::from));
        self
    }
    pub fn describe(&self) -> String {
        format!("cambrian {:?} user args {:?} plan {} spec:\n{}", self.opts, self.user_args, short(&self.plan.to_string(), 1500), short(&self.spec, 1500))
    }
}

fn began_seed() -> u64 {
    (now() as u64) % 1000
}

/// surroundings that a run must not depend on: environment variables, number of processors, priority
pub fn foreign_env(cmd: &mut Command, seed: u64) {
    for (i, name) in ["SEED", "RANDOM", "RANDOM_SEED", "RNG_SEED", "CAMBRIAN_SEED", "RAYON_NUM_THREADS", "NUM_THREADS", "DEBUG", "CI", "USER", "HOSTNAME"].iter().enumerate() {
        cmd.env(name, (seed % 1000 + i as u64 + 1).to_string());
    }
    cmd.env("TZ", "Pacific/Auckland").env("LANG", "de_DE.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("RUST_LOG", "trace").env("HOME", "/nonexistent").env("TERM", "xterm-256color");
    unsafe {
        cmd.pre_exec(move || {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET((libc::sched_getcpu().max(0)) as usize, &mut set);
            libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            Ok(())
        });
    }
}

pub fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}... ({} bytes)", &s[..k], s.len())
}

pub fn read_tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut out = BTreeMap::new();
    fn go(root: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let name = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let m = std::fs::symlink_metadata(&p).unwrap();
            if m.is_dir() {
                out.insert(name + "/", vec![]);
                go(root, &p, out);
            } else if m.file_type().is_symlink() {
                out.insert(name + "@", std::fs::read_link(&p).unwrap().into_os_string().into_vec());
            } else {
                out.insert(name, std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    go(dir, dir, &mut out);
    out
}

/// a run inside `s`; the scripted program lies in s.dir/p
pub fn run(s: &Scratch, c: &Cli) -> Run {
    let b = base();
    let pdir = s.dir.join("p");
    if pdir.exists() {
        std::fs::remove_dir_all(&pdir).unwrap();
    }
    std::fs::create_dir(&pdir).unwrap();
    s.own(&pdir);
    let prog = pdir.join(&c.program);
    std::fs::hard_link(b.dir.join("cobj"), &prog).unwrap_or_else(|_| {
        std::fs::copy(b.dir.join("cobj"), &prog).unwrap();
    });
    s.put("p/plan.json", c.plan.to_string().as_bytes());
    let spec = s.put("spec.yaml", c.spec.as_bytes());
    let mut args: Vec<OsString> = vec![];
    let mut pos: Vec<OsString> = vec![];
    if c.dashes {
        pos.push("--".into());
    }
    pos.push(c.program_path.clone().unwrap_or_else(|| prog.clone().into_os_string()));
    pos.extend(c.user_args.iter().cloned());
    let mut opts: Vec<OsString> = vec![];
    if !c.opts.iter().any(|o| o == "-s" || o.as_bytes().starts_with(b"--spec-file")) {
        opts.push("-s".into());
        opts.push(spec.into_os_string());
    }
    opts.extend(c.opts.iter().filter(|o| *o != "NO-SPEC").cloned());
    if let Some(o) = &c.out_dir {
        opts.push("-o".into());
        opts.push(s.dir.join(o).into_os_string());
    }
    if c.positional_first && !c.dashes {
        args.extend(pos);
        args.extend(opts);
    } else {
        args.extend(opts);
        args.extend(pos);
    }
    let mut cmd = Command::new(b.dir.join(if c.lib.is_some() { "cverif" } else { "cambrian" }));
    if let Some(level) = c.lib {
        if level == "values" {
            cmd.arg("procval");
        } else {
            cmd.arg("procrun").arg(level);
        }
    }
    cmd.args(&args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    cmd.current_dir(c.cwd.as_ref().map(|d| s.dir.join(d)).unwrap_or_else(|| s.dir.clone()));
    cmd.env_clear().env("PATH", c.env_path.clone().unwrap_or_else(|| "/usr/bin:/bin".into())).env("RUST_BACKTRACE", "0");
    if b.setuid {
        cmd.uid(s.uid.0).gid(s.uid.0);
    }
    if c.foreign {
        foreign_env(&mut cmd, began_seed());
    }
    let nofile = c.nofile;
    unsafe {
        cmd.pre_exec(move || {
            libc::setsid();
            if let Some(n) = nofile {
                let r = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_NOFILE, &r);
            }
            // objective programs must not exhaust the sandbox
            let r = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            Ok(())
        });
    }
    let began = now();
    let t0 = Instant::now();
    let mut ch = cmd.spawn().expect("cambrian");
    let cpid = ch.id() as i32;
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let (tx, rx) = std::sync::mpsc::channel();
    let tx2 = tx.clone();
    // not joined: a survivor may hold the pipe open
    std::thread::spawn(move || {
        let mut v = vec![];
        so.read_to_end(&mut v).ok();
        tx.send((1, v)).ok();
    });
    std::thread::spawn(move || {
        let mut v = vec![];
        se.read_to_end(&mut v).ok();
        tx2.send((2, v)).ok();
    });
    let mut hung = false;
    let mut sigint_at = None;
    let mut left = match c.sig {
        Sig::AfterStarts(_, _, k) => k,
        _ => 0,
    };
    let mut reached: Option<Instant> = None;
    let st = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break st;
        }
        if t0.elapsed().as_secs_f64() > c.limit_s {
            hung = true;
            unsafe { libc::kill(cpid, libc::SIGKILL) };
            break ch.wait().unwrap();
        }
        if let Sig::AfterStarts(k, ms, _) = c.sig {
            if left > 0 {
                if reached.is_none() && read_log(&pdir).starts.len() as u64 >= k {
                    reached = Some(Instant::now());
                }
                if reached.map_or(false, |r| r.elapsed() >= Duration::from_millis(ms)) {
                    sigint_at = sigint_at.or(Some(now()));
                    unsafe { libc::kill(cpid, libc::SIGINT) };
                    left -= 1;
                    reached = Some(Instant::now());
                }
            }
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let wall = t0.elapsed().as_secs_f64();
    // who is left? (dying processes get a moment)
    let t1 = Instant::now();
    let mut survivors;
    let mut log;
    loop {
        log = read_log(&pdir);
        survivors = survivors_of(s, &log, cpid);
        if survivors.is_empty() || t1.elapsed() > Duration::from_millis(2000) {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let extra: Vec<(i32, u64)> = log.starts.iter().map(|x| (x.pid, x.start)).chain(log.grand.iter().map(|g| (g.1, g.2))).collect();
    s.kill_all(&extra);
    let mut stdout = vec![];
    let mut stderr = vec![];
    for _ in 0..2 {
        match rx.recv_timeout(Duration::from_secs(5)) {
            Ok((1, v)) => stdout = v,
            Ok((_, v)) => stderr = v,
            Err(_) => {}
        }
    }
    let files = c.out_dir.as_ref().map(|o| read_tree(&s.dir.join(o))).unwrap_or_default();
    let rows = files
        .get("detailed_report.csv")
        .map(|b| String::from_utf8_lossy(b).lines().skip(1).filter_map(parse_row).collect())
        .unwrap_or_default();
    Run {
        args,
        code: st.code(),
        signal: st.signal(),
        stdout,
        stderr: String::from_utf8_lossy(&stderr).to_string(),
        log,
        wall,
        hung,
        survivors,
        files,
        began,
        sigint_at,
        rows,
    }
}

fn survivors_of(s: &Scratch, log: &Log, cpid: i32) -> Vec<String> {
    let mut out = vec![];
    let escaped = |pid: i32, st: u64| log.grand.iter().any(|g| g.1 == pid && g.2 == st && g.3);
    let procs = if base().setuid {
        s.mine()
    } else {
        let groups: Vec<i32> = log.starts.iter().map(|x| x.pid).collect();
        all_procs().into_iter().filter(|p| groups.contains(&p.pgrp) || log.starts.iter().any(|x| x.pid == p.pid && x.start == p.start)).collect()
    };
    for p in procs {
        if matches!(p.state, 'Z' | 'X') || p.pid == cpid || escaped(p.pid, p.start) {
            continue;
        }
        // a process that never got as far as logging has the group of the child it belongs to
        let what = if let Some(x) = log.starts.iter().find(|x| x.pid == p.pid && x.start == p.start) {
            format!("objective process of evaluation {}", x.n)
        } else if let Some(g) = log.grand.iter().find(|g| g.1 == p.pid && g.2 == p.start) {
            format!("descendant of evaluation {}", g.0)
        } else {
            format!("process {} ({})", p.pid, p.comm)
        };
        out.push(format!("{what} (pid {}, group {}, state {})", p.pid, p.pgrp, p.state));
    }
    out
}

/// `cverif procrun LEVEL ARGS`: what the command-line tool does with the same arguments, through the library
pub fn procrun(args: &[String]) -> i32 {
    use cambrian::termination::TerminationCriterion as T;
    struct Log;
    impl log::Log for Log {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            eprintln!("{} {}", r.level(), r.args());
        }
        fn flush(&self) {}
    }
    static LOG: Log = Log;
    log::set_logger(&LOG).unwrap();
    log::set_max_level(args[0].parse().unwrap());
    let mut conf = cambrian::meta::AlgoConfigBuilder::new();
    let (mut spec, mut kill, mut crit, mut pos) = (None, None, vec![], vec![]);
    let mut it = args[1..].iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().unwrap().clone();
        match a.as_str() {
            "-s" => spec = Some(std::fs::read_to_string(val()).unwrap()),
            "-n" => crit.push(T::NumObjFuncEval(val().parse().unwrap())),
            "--sample-size" => drop(conf.individual_sample_size(val().parse().unwrap())),
            "--num-concurrent" => drop(conf.num_concurrent(val().parse().unwrap())),
            "-k" => kill = Some(Duration::from_secs(val().strip_suffix('s').unwrap().parse().unwrap())),
            "-o" => drop(val()),
            x if x.starts_with("-t=") => crit.push(T::TargetObjFuncVal(x[3..].parse().unwrap())),
            _ => pos.push(OsString::from(a)),
        }
    }
    let spec = cambrian::spec_util::from_yaml_str(&spec.unwrap()).unwrap();
    let def = cambrian::process::ObjFuncProcessDef::new(pos[0].clone(), pos[1..].to_vec(), kill);
    match cambrian::sync_launch::launch_with_async_obj_func(spec, def, conf.build().unwrap(), crit, None, false, None) {
        Ok(r) => {
            println!("{}", r.best_seen.value);
            0
        }
        Err(e) => {
            eprintln!("{e}");
            1
        }
    }
}

/// `cverif procval -s FILE PROGRAM ARGS`: evaluates the parameter sets and seeds of FILE, one after the other
pub fn procval(args: &[String]) -> i32 {
    use cambrian::meta::AsyncObjectiveFunction;
    // not read with serde_json, which is off by an ulp on some real numbers
    let file = crate::props::c11::exact_json(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let cases: Vec<(J, u64)> = file.as_array().unwrap().iter().map(|c| (c[0].clone(), c[1].as_u64().unwrap())).collect();
    let def = cambrian::process::ObjFuncProcessDef::new(os(&args[2]), args[3..].iter().map(|a| os(a)).collect(), None);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        for (k, (v, seed)) in cases.into_iter().enumerate() {
            // the sender is kept, or the receiver would report a closed channel
            let (_tx, rx) = async_broadcast::broadcast::<()>(1);
            match def.evaluate(v, rx, seed, k).await {
                Ok(Some(x)) => println!("value {:016x}", x.to_bits()),
                Ok(None) => println!("rejected"),
                Err(e) => println!("error {}", e.to_string().replace('\n', " ")),
            }
        }
    });
    0
}

pub fn os(s: &str) -> OsString {
    OsStr::new(s).to_owned()
}
