//! Multi-threaded entry points in the interpreter Miri (program: checks-miri). Miri runs all threads in
//! one, changes between them at randomly drawn basic blocks, and reports data races (by the order that
//! synchronisation gives, not by chance), accesses outside of what a pointer may reach, uses of
//! uninitialised memory and deadlocks. Everything, the random numbers of the code under test included,
//! follows from the seed.
use engine::{ensure, CheckResult, Cx, Inst};
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Serialize, Deserialize)]
pub struct Interpreted {
    pub what: String,
    pub inst: Inst,
    pub xs: Vec<usize>,
    pub points: Vec<[f64; 2]>,
    pub workers: usize,
    pub processors: usize,
    pub repeat: usize,
    pub seed: u32,
    /// probability of a change of threads at the end of a basic block
    pub rate: f64,
}

pub enum Answer {
    /// one line per repetition
    Lines(Vec<String>),
    /// nothing can be concluded
    Unknown(String),
}

fn sysroot() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_NIGHTLY").unwrap_or_else(|_| "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu".into()))
}

fn numbers(xs: impl Iterator<Item = f64>) -> String {
    xs.map(|x| format!("{:x}", x.to_bits())).collect::<Vec<_>>().join(",")
}

fn ended_from_outside(why: &str) -> ! {
    println!("ERROR: Miri: {why}");
    std::process::exit(2)
}

pub fn interpret(c: &Interpreted) -> Result<Answer, String> {
    if std::env::var_os("VERIF_NO_MIRI").is_some() {
        return Ok(Answer::Unknown("Miri does not work here".into()));
    }
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("build");
    let n = c.inst.n;
    let weights = numbers((0..n).flat_map(|i| (i + 1..n).map(move |j| c.inst.d(i, j))));
    let list = if c.what == "points" {
        numbers(c.points.iter().flatten().copied())
    } else {
        c.xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    };
    let flags = format!(
        "-Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-num-cpus={} -Zmiri-seed={} -Zmiri-preemption-rate={}",
        c.processors, c.seed, c.rate
    );
    let mut cmd = Command::new(sysroot().join("bin/cargo-miri"));
    cmd.arg("runner")
        .arg(dir.join("miri/x86_64-unknown-linux-gnu/debug/checks-miri"))
        .args([&c.what, &c.workers.to_string(), &c.repeat.to_string(), &n.to_string(), &weights, &list])
        .env("MIRI_SYSROOT", dir.join("cache/miri"))
        .env("LD_LIBRARY_PATH", sysroot().join("lib"))
        .env("MIRIFLAGS", flags)
        .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
        .env_remove("RUSTFLAGS")
        .env_remove("ASAN_OPTIONS")
        .env_remove("LD_PRELOAD")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let mut child = match cmd.spawn() {
        Ok(x) => x,
        Err(e) => ended_from_outside(&format!("cannot start: {e}")),
    };
    let (mut so, mut se) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let read = |r: &mut dyn Read| {
        let mut v = vec![];
        let _ = r.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    };
    let (status, out, err) = std::thread::scope(|s| {
        let a = s.spawn(move || read(&mut so));
        let b = s.spawn(move || read(&mut se));
        let start = Instant::now();
        let status = loop {
            if let Some(st) = child.try_wait().unwrap() {
                break Some(st);
            }
            if start.elapsed() > Duration::from_secs(150) {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        (status, a.join().unwrap(), b.join().unwrap())
    });
    let Some(status) = status else {
        return Ok(Answer::Unknown("not finished in time".into()));
    };
    if status.code().is_none() {
        ended_from_outside("killed");
    }
    // what the program itself printed comes before the report
    let report = || {
        let from = err.find("error:").map_or("", |i| &err[i..]);
        let lines: Vec<&str> = from.lines().take(60).collect();
        let mut text: Vec<&str> = lines.iter().take(1).copied().collect();
        text.extend(lines.iter().filter(|l| l.trim_start().starts_with("--> ") || l.contains(" at /repo/")).take(3).map(|l| l.trim()));
        text.join(" ")
    };
    if !status.success() {
        if err.contains("Undefined Behavior") || err.contains("the evaluated program deadlocked") {
            return Err(report());
        }
        if let Some(i) = err.find("panicked at ") {
            return Err(err[i..].lines().take(2).collect::<Vec<_>>().join(" "));
        }
        if err.contains("abnormal termination") {
            return Err(report());
        }
        if err.contains("unsupported operation") || err.contains("post-monomorphization") {
            return Ok(Answer::Unknown(report()));
        }
        eprintln!("{err}");
        ended_from_outside("no result");
    }
    let mut lines: Vec<String> = out.lines().map(|l| l.to_string()).collect();
    let last = lines.pop().unwrap_or_default();
    ensure!(last != "changed", "the distances were changed");
    let lines: Vec<String> = lines.into_iter().filter_map(|l| l.strip_prefix("= ").map(|x| x.to_string())).collect();
    if last != "unchanged" || lines.len() != c.repeat {
        eprintln!("{out}\n{err}");
        ended_from_outside("unexpected output");
    }
    Ok(Answer::Lines(lines))
}

/// "bits 1,2,3" as the program prints a tour
pub fn solution(line: &str) -> (f64, Vec<usize>) {
    let (c, t) = line.split_once(' ').unwrap_or((line, ""));
    (f64::from_bits(u64::from_str_radix(c, 16).unwrap()), t.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
}

pub fn run(c: &Interpreted, cx: &mut Cx, judge: impl Fn(&str) -> CheckResult) -> CheckResult {
    match interpret(c)? {
        Answer::Lines(v) => {
            for l in v {
                judge(&l)?;
            }
        }
        Answer::Unknown(why) => {
            cx.nontrivial = false;
            cx.label(format!("inconclusive: {why}"));
        }
    }
    Ok(())
}

pub fn shrink(c: &Interpreted, min: usize, metric: bool) -> Vec<Interpreted> {
    let mut v = vec![];
    if c.repeat > 1 {
        v.push(Interpreted { repeat: 1, ..c.clone() });
        v.push(Interpreted { repeat: c.repeat - 1, ..c.clone() });
    }
    if c.workers > 1 {
        v.push(Interpreted { workers: c.workers - 1, ..c.clone() });
    }
    if c.processors > 1 {
        v.push(Interpreted { processors: c.processors - 1, ..c.clone() });
    }
    if !c.points.is_empty() {
        v.push(Interpreted { points: c.points[1..].to_vec(), ..c.clone() });
    }
    v.extend(c.inst.shrink(min, metric).into_iter().map(|inst| Interpreted { inst, ..c.clone() }));
    v
}
