//! Scripted objective program. Its directory (where its own executable lies) holds plan.json and log.
//! Everything it does is written to the log first, so the harness knows what was started and what ended.
use serde_json::Value as J;
use std::ffi::OsString;
use std::fs::{File, OpenOptions};
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn now() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}
fn starttime(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    s.rfind(')').and_then(|i| s[i + 2..].split(' ').nth(19).and_then(|x| x.parse().ok())).unwrap_or(0)
}
fn alive(pid: i32, st: u64) -> bool {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let Some(i) = s.rfind(')') else { return false };
    let f: Vec<&str> = s[i + 2..].split(' ').collect();
    !matches!(f[0], "Z" | "X") && f[19].parse::<u64>().ok() == Some(st)
}
fn log(dir: &Path, line: String) {
    let mut f = OpenOptions::new().append(true).create(true).open(dir.join("log")).unwrap();
    f.write_all((line + "\n").as_bytes()).unwrap();
}
/// number of this evaluation in order of start: the log itself is the counter
fn number(dir: &Path, line: impl Fn(u64) -> String) -> u64 {
    let f = OpenOptions::new().read(true).write(true).create(true).truncate(false).open(dir.join("lock")).unwrap();
    unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX) };
    let n = starts(dir);
    log(dir, line(n));
    n
}
fn sleep(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
}
fn fd_write(fd: i32, b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}
fn ignore() {
    unsafe {
        for s in [libc::SIGTERM, libc::SIGINT, libc::SIGHUP, libc::SIGPIPE, libc::SIGQUIT, libc::SIGUSR1, libc::SIGALRM] {
            libc::signal(s, libc::SIG_IGN);
        }
    }
}
fn starts(dir: &Path) -> u64 {
    let s = std::fs::read(dir.join("log")).unwrap_or_default();
    s.split(|b| *b == b'\n').filter(|l| l.starts_with(b"S ")).count() as u64
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}

fn main() {
    let exe = std::env::current_exe().unwrap();
    let dir: PathBuf = exe.parent().unwrap().to_path_buf();
    let args: Vec<OsString> = std::env::args_os().collect();
    let plan: J = serde_json::from_reader(File::open(dir.join("plan.json")).unwrap()).unwrap();
    let pid = std::process::id() as i32;
    let pg = unsafe { libc::getpgrp() };
    let hexargs: Vec<String> = args.iter().map(|a| format!("x{}", hex(a.as_bytes()))).collect();
    let n = number(&dir, |n| format!("S {n} {pid} {} {pg} {} {}", starttime(pid), now(), hexargs.join(" ")));
    let a = plan["at"].get(n.to_string()).unwrap_or(&plan["default"]).clone();
    let ms = |k: &str| a[k].as_u64().unwrap_or(0);
    if a["ignore"] == true {
        ignore();
    }
    // what earlier, timed-out evaluations left behind
    if a["check_dead"] == true {
        let text = std::fs::read_to_string(dir.join("log")).unwrap_or_default();
        for l in text.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let (k, p, st) = match f[0] {
                "S" | "G" => (f[1].parse::<u64>().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap()),
                _ => continue,
            };
            let must = plan["at"].get(k.to_string()).unwrap_or(&plan["default"])["times_out"] == true && !(f[0] == "G" && f[4] == "1");
            if k >= n || !must {
                continue;
            }
            let t = Instant::now();
            while alive(p, st) && t.elapsed() < Duration::from_secs(3) {
                sleep(5);
            }
            if alive(p, st) {
                log(&dir, format!("A {n} {p} {k}"));
            }
        }
    }
    // grandchildren; their pids are logged before anything else happens
    for g in a["spawn"].as_array().cloned().unwrap_or_default() {
        let leaves = g["setsid"] == true;
        let life = g["ms"].as_u64().unwrap();
        let mut pipe = [0i32; 2];
        unsafe {
            libc::pipe(pipe.as_mut_ptr());
            let c = libc::fork();
            if c == 0 {
                if leaves {
                    libc::setsid();
                }
                if g["hold"] != true {
                    libc::close(1);
                    libc::close(2);
                }
                if g["ignore"] == true {
                    ignore();
                }
                if g["double"] == true && libc::fork() != 0 {
                    libc::_exit(0);
                }
                let me = libc::getpid();
                log(&dir, format!("G {n} {me} {} {}", starttime(me), leaves as u8));
                libc::write(pipe[1], b"x".as_ptr() as *const _, 1);
                libc::close(pipe[0]);
                libc::close(pipe[1]);
                sleep(life);
                libc::_exit(0);
            }
            let mut b = [0u8];
            libc::read(pipe[0], b.as_mut_ptr() as *mut _, 1);
            libc::close(pipe[0]);
            libc::close(pipe[1]);
        }
    }
    if let Some(c) = a["barrier"].as_u64() {
        // wait for the whole batch
        let want = (n / c + 1) * c;
        let t = Instant::now();
        while starts(&dir) < want {
            if t.elapsed() > Duration::from_secs(15) {
                log(&dir, format!("B {n} {}", starts(&dir)));
                break;
            }
            sleep(2);
        }
    }
    if let Some(f) = a["wait"].as_str() {
        let t = Instant::now();
        while !dir.join(f).exists() && t.elapsed() < Duration::from_secs(60) {
            sleep(2);
        }
    }
    sleep(ms("pre_ms"));
    if a["stop"] == true {
        unsafe { libc::raise(libc::SIGSTOP) };
    }
    // from now on the program cannot be started any more
    if let Some(how) = a["spoil"].as_str() {
        // noted first: as soon as it is done a launch that fails may get this process killed
        log(&dir, format!("V {n} {}", now()));
        let old = dir.join("spoilt");
        std::fs::rename(&exe, &old).ok();
        let script = |b: &[u8], mode: u32| {
            use std::os::unix::fs::PermissionsExt;
            let tmp = dir.join("new");
            std::fs::write(&tmp, b).unwrap();
            std::fs::set_permissions(&tmp, std::fs::Permissions::from_mode(mode)).unwrap();
            std::fs::rename(&tmp, &exe).unwrap();
        };
        match how {
            "directory" => std::fs::create_dir(&exe).unwrap(),
            "no permission" => script(b"#!/bin/sh\necho '{\"objFuncVal\": 1}'\n", 0o644),
            "no interpreter" => script(b"#!/nonexistent/interpreter\n", 0o755),
            "no format" => script(&[0, 1, 2, 3], 0o755),
            "loop" => std::os::unix::fs::symlink(&exe, &exe).unwrap(),
            "dangling" => std::os::unix::fs::symlink(dir.join("nothing"), &exe).unwrap(),
            _ => {}
        }
    }
    let json: Vec<u8> = if args.len() >= 3 { args[args.len() - 2].as_bytes().to_vec() } else { vec![] };
    let reps = a["reps"].as_u64().unwrap_or(0);
    let filler = a["filler"].as_str().map(unhex).unwrap_or_else(|| b" ".to_vec());
    if reps > 0 {
        let chunk: Vec<u8> = filler.iter().copied().cycle().take(4096).collect();
        for _ in 0..reps {
            fd_write(1, &chunk);
            if a["reps_err"] == true {
                fd_write(2, &chunk);
            }
        }
    }
    if let Some(e) = a["err"].as_str() {
        fd_write(2, &unhex(e));
    }
    let out: Vec<u8> = match &a["out"] {
        J::String(h) => unhex(h),
        J::Object(o) => {
            let k = o["mod"].as_u64().unwrap();
            let sub = o.get("sub").and_then(|x| x.as_f64()).unwrap_or(0.0);
            let v = (hash(&json) % k) as f64 / 8.0 - sub;
            match o.get("near").and_then(|x| x.as_i64()).unwrap_or(0) {
                0 => format!("{{\"objFuncVal\": {v}}}").into_bytes(),
                s => format!("{{\"objFuncVal\": {}1.{:015}}}", if s < 0 { "-" } else { "" }, hash(&json) % k).into_bytes(),
            }
        }
        _ => vec![],
    };
    if a["slow_out"] == true {
        for b in &out {
            fd_write(1, &[*b]);
            sleep(3);
        }
    } else {
        fd_write(1, &out);
    }
    if a["close"] == true {
        unsafe {
            libc::close(1);
            libc::close(2);
        }
    }
    sleep(ms("post_ms"));
    log(&dir, format!("E {n} {}", now()));
    if let Some(s) = a["signal"].as_i64() {
        unsafe {
            libc::signal(s as i32, libc::SIG_DFL);
            libc::raise(s as i32);
        }
        sleep(1000);
    }
    unsafe { libc::_exit(a["exit"].as_i64().unwrap_or(0) as i32) };
}
