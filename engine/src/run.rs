//! Running checks: parent process, child process, shrinking, replay and evidence.
use crate::gen::{hash_bytes, mix, Gen};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a check records about one case.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// true while a single case is replayed or shrunk
    pub verbose: bool,
}

impl Cx {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
}

pub type CheckResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => { if !($c) { return Err(format!($($fmt)*)); } };
}

/// One generated check.
pub struct Sub<C> {
    pub name: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub gen: fn(&mut Gen, u64) -> C,
    pub run: fn(&C, &mut Cx) -> CheckResult,
    pub shrink: fn(&C) -> Vec<C>,
}

pub trait Erased: Sync + Send {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn count(&self, thorough: bool) -> u64;
    fn threads(&self) -> usize;
    /// generate and run case `idx`
    fn step(&self, base: u64, idx: u64, cx: &mut Cx, want_json: bool) -> (CheckResult, u64, Option<String>);
    fn case_json(&self, base: u64, idx: u64) -> String;
    fn run_json(&self, case: &str, cx: &mut Cx) -> CheckResult;
    fn shrink_json(&self, case: &str) -> Vec<String>;
}

fn case_gen(base: u64, name: &str, idx: u64) -> Gen {
    Gen::new(mix(base ^ hash_bytes(name.as_bytes()) ^ mix(idx)))
}

fn message(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

/// Runs code that may panic; a panic becomes an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => Err(format!("panic: {}", message(&*p))),
    }
}

impl<C> Erased for Sub<C>
where
    C: Serialize + DeserializeOwned + Send + Sync,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn count(&self, thorough: bool) -> u64 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }
    fn threads(&self) -> usize {
        self.threads
    }
    fn step(&self, base: u64, idx: u64, cx: &mut Cx, want_json: bool) -> (CheckResult, u64, Option<String>) {
        let case = (self.gen)(&mut case_gen(base, self.name, idx), idx);
        let r = guarded(|| (self.run)(&case, cx)).and_then(|r| r);
        let text = serde_json::to_string(&case).unwrap();
        let h = hash_bytes(text.as_bytes());
        (r, h, if want_json { Some(text) } else { None })
    }
    fn case_json(&self, base: u64, idx: u64) -> String {
        serde_json::to_string(&(self.gen)(&mut case_gen(base, self.name, idx), idx)).unwrap()
    }
    fn run_json(&self, case: &str, cx: &mut Cx) -> CheckResult {
        let case: C = serde_json::from_str(case).expect("replay file does not fit this check");
        guarded(|| (self.run)(&case, cx)).and_then(|r| r)
    }
    fn shrink_json(&self, case: &str) -> Vec<String> {
        let case: C = serde_json::from_str(case).unwrap();
        (self.shrink)(&case).iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Box<dyn Erased>>,
    pub assumptions: Vec<&'static str>,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    sub: String,
    message: String,
    shrunk_steps: u64,
    case: Value,
}

/// In-flight table shared between parent and child.
struct Slots {
    p: *mut u64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
const SLOTS: usize = 64;
impl Slots {
    fn open(path: &Path) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((SLOTS * 16) as u64).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOTS * 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Slots { p: p as *mut u64 }
    }
    fn set(&self, t: usize, sub: u64, idx: u64) {
        unsafe {
            self.p.add(2 * t + 1).write_volatile(idx);
            self.p.add(2 * t).write_volatile(sub);
        }
    }
    fn get(&self, t: usize) -> (u64, u64) {
        unsafe { (self.p.add(2 * t).read_volatile(), self.p.add(2 * t + 1).read_volatile()) }
    }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1)
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
fn base_seed(prop: &str) -> u64 {
    mix(env_seed().wrapping_mul(0x9e37) ^ hash_bytes(prop.as_bytes()))
}
/// Scratch directory of this run; removed by the parent.
pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH"))
}
fn soft_limit() -> Duration {
    let d = if thorough() { 6 * 3600 } else { 560 };
    Duration::from_secs(std::env::var("VERIF_SOFT").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}
fn hard_limit() -> Duration {
    let d = if thorough() { 7 * 3600 } else { 780 };
    Duration::from_secs(std::env::var("VERIF_HARD").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(u64, Value)>,
    first_fail: Option<(u64, String)>,
    /// of a single case, in seconds
    slowest: f64,
}

fn write_replay(prop: &str, sub: &str, msg: &str, case: &str, steps: u64) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{prop}-{sub}-{:012x}.json", hash_bytes(case.as_bytes()) >> 16));
    let r = Replay {
        property: prop.into(),
        sub: sub.into(),
        message: msg.into(),
        shrunk_steps: steps,
        case: serde_json::from_str(case).unwrap(),
    };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    path
}

fn report(prop: &str, sub: &str, msg: &str, path: &Path) {
    let short: String = msg.chars().take(1500).collect();
    println!("  failing check {prop}/{sub}: {short}");
    println!("VIOLATION property={prop} replay={}", path.display());
    let _ = std::io::stdout().flush();
}

fn sample_value(text: &str) -> Value {
    if text.len() <= 700 {
        serde_json::from_str(text).unwrap()
    } else {
        let s: String = text.chars().take(600).collect();
        json!(format!("{s} ... ({} characters)", text.len()))
    }
}

fn child(prop: &Prop, slots: &Path, only_sub: Option<&str>) -> i32 {
    let slots = Slots::open(slots);
    let start = Instant::now();
    let base = base_seed(prop.id);
    let deep = thorough();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let mut sub_reports = vec![];
    let mut violation: Option<(usize, u64, String)> = None;
    let mut truncated = false;
    for (si, sub) in prop.subs.iter().enumerate() {
        if only_sub.map(|o| o != sub.name()).unwrap_or(false) {
            continue;
        }
        let t0 = Instant::now();
        let count = ((sub.count(deep) as f64 * scale).ceil() as u64).max(1);
        let next = AtomicU64::new(0);
        let worst = AtomicU64::new(u64::MAX);
        let stats = Mutex::new(Stats::default());
        let nthreads = if sub.threads() == 0 { cores } else { sub.threads() };
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (next, worst, stats, slots, sub) = (&next, &worst, &stats, &slots, &**sub);
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .name(format!("case-{t}"))
                    .spawn_scoped(s, move || {
                        let mut local = Stats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= count || i > worst.load(Ordering::Relaxed) || start.elapsed() > soft_limit() {
                                break;
                            }
                            slots.set(t, si as u64 + 1, i);
                            let mut cx = Cx::default();
                            let began = Instant::now();
                            let (r, h, text) = sub.step(base, i, &mut cx, i < 40 || i % 97 == 0);
                            slots.set(t, 0, 0);
                            local.slowest = local.slowest.max(began.elapsed().as_secs_f64());
                            local.evaluations += 1;
                            for l in cx.labels {
                                *local.labels.entry(l).or_insert(0) += 1;
                            }
                            if cx.nontrivial {
                                local.nontrivial.insert(h);
                                if let Some(text) = text {
                                    if local.samples.len() < 3 {
                                        local.samples.push((i, sample_value(&text)));
                                    }
                                }
                            }
                            if let Err(m) = r {
                                worst.fetch_min(i, Ordering::Relaxed);
                                if local.first_fail.as_ref().map(|(j, _)| i < *j).unwrap_or(true) {
                                    local.first_fail = Some((i, m));
                                }
                            }
                        }
                        let mut all = stats.lock().unwrap();
                        all.evaluations += local.evaluations;
                        all.slowest = all.slowest.max(local.slowest);
                        all.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.labels {
                            *all.labels.entry(k).or_insert(0) += v;
                        }
                        all.samples.extend(local.samples);
                        if let Some((i, m)) = local.first_fail {
                            if all.first_fail.as_ref().map(|(j, _)| i < *j).unwrap_or(true) {
                                all.first_fail = Some((i, m));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let mut st = stats.into_inner().unwrap();
        if st.first_fail.is_none() && st.evaluations < count {
            truncated = true;
        }
        st.samples.sort_by_key(|s| s.0);
        st.samples.truncate(3);
        println!(
            "  {}/{}: {} cases, {} distinct non-trivial, {:.1} s (slowest {:.2} s) {}",
            prop.id,
            sub.name(),
            st.evaluations,
            st.nontrivial.len(),
            t0.elapsed().as_secs_f64(),
            st.slowest,
            st.labels.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
        let _ = std::io::stdout().flush();
        sub_reports.push((sub.name(), sub.rule(), st.evaluations, st.nontrivial.len(), st.labels, st.samples, t0.elapsed().as_secs_f64()));
        if let Some((i, m)) = st.first_fail {
            violation = Some((si, i, m));
            break;
        }
    }
    write_evidence(prop.id, &prop.assumptions, &sub_reports, violation.is_some() as i64, truncated, start.elapsed().as_secs_f64());
    let Some((si, i, msg)) = violation else { return 0 };
    let sub = &prop.subs[si];
    let text = sub.case_json(base, i);
    let pending = scratch().join("pending");
    let path = write_replay(prop.id, sub.name(), &msg, &text, 0);
    std::fs::write(&pending, format!("{}\n{}\n{}", sub.name(), path.display(), msg)).unwrap();
    let (text2, msg2, steps) = shrink(&**sub, text, msg, |c| {
        let mut cx = Cx { verbose: true, ..Cx::default() };
        sub.run_json(c, &mut cx).err()
    });
    let path2 = write_replay(prop.id, sub.name(), &msg2, &text2, steps);
    if path2 != path {
        let _ = std::fs::remove_file(&path);
    }
    report(prop.id, sub.name(), &msg2, &path2);
    1
}

fn shrink(sub: &dyn Erased, mut text: String, mut msg: String, fails: impl Fn(&str) -> Option<String>) -> (String, String, u64) {
    let start = Instant::now();
    let (mut steps, mut tried) = (0, 0);
    let limit = Duration::from_secs(60);
    'outer: loop {
        for cand in sub.shrink_json(&text) {
            if cand == text {
                continue;
            }
            tried += 1;
            if tried > 5000 || start.elapsed() > limit {
                break 'outer;
            }
            if let Some(m) = fails(&cand) {
                text = cand;
                msg = m;
                steps += 1;
                continue 'outer;
            }
        }
        break;
    }
    (text, msg, steps)
}

type SubReport = (&'static str, &'static str, u64, usize, BTreeMap<String, u64>, Vec<(u64, Value)>, f64);

fn write_evidence(id: &str, assumptions: &[&str], subs: &[SubReport], violations: i64, truncated: bool, wall: f64) {
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    let mut samples = vec![];
    for s in subs {
        for (i, v) in &s.5 {
            samples.push(json!({"check": s.0, "index": i, "case": v}));
        }
    }
    let v = json!({
        "property": id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": env_seed() as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": subs.iter().map(|s| s.2).sum::<u64>(),
            "distinct_nontrivial": subs.iter().map(|s| s.3 as u64).sum::<u64>(),
            "rule": subs.iter().map(|s| format!("{}: {}", s.0, s.1)).collect::<Vec<_>>().join(" | "),
            "samples": samples,
            "stopped_early": truncated,
            "checks": subs.iter().map(|s| json!({
                "name": s.0, "evaluations": s.2, "distinct_nontrivial": s.3, "classes": s.4, "wall_s": s.6,
            })).collect::<Vec<_>>(),
        },
        "assumptions": assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
}

enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}

/// Data of a checking process, and of each process it starts, in bytes.
const MEMORY: u64 = 16 << 30;

fn spawn_child(args: &[&str], scratch: &Path, quiet: bool) -> std::process::Child {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).env("VERIF_SCRATCH", scratch).stdin(Stdio::null());
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    // the child's own children die with its process group
    c.process_group(0);
    // running out of memory is then an abort of the case, not of the machine (the address sanitizer
    // reserves far more than it uses)
    if !std::env::current_exe().unwrap().to_string_lossy().contains("asan") {
        unsafe {
            c.pre_exec(|| {
                let l = libc::rlimit { rlim_cur: MEMORY, rlim_max: MEMORY };
                libc::setrlimit(libc::RLIMIT_DATA, &l);
                Ok(())
            });
        }
    }
    c.spawn().expect("spawn")
}

fn kill_group(ch: &mut std::process::Child) {
    unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
    let _ = ch.wait();
}

/// How the child ended, if it has.
fn ended(ch: &mut std::process::Child) -> Option<End> {
    use std::os::unix::process::ExitStatusExt;
    let st = ch.try_wait().unwrap()?;
    unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
    Some(match (st.code(), st.signal()) {
        (Some(c), _) => End::Code(c),
        (_, Some(s)) => End::Signal(s),
        _ => End::Code(2),
    })
}

/// Observes a process (and those it started) for signs that it will never end.
pub struct Watch {
    pid: i32,
    family: bool,
    start: Instant,
    next: Instant,
    asleep_since: Option<(Instant, f64)>,
    awake: u32,
    /// processor time used so far, in seconds
    pub cpu: f64,
}

impl Watch {
    pub fn new(pid: u32, family: bool) -> Watch {
        let now = Instant::now();
        Watch { pid: pid as i32, family, start: now, next: now, asleep_since: None, awake: 0, cpu: 0.0 }
    }
    /// Processor time of all of them, and whether one of their threads is running or could run.
    fn look(&self) -> (f64, bool) {
        let (mut cpu, mut active) = (0.0, false);
        let tick = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
        let mut pids: Vec<i32> = vec![self.pid];
        if self.family {
            pids.extend(std::fs::read_dir("/proc").into_iter().flatten().flatten().filter_map(|e| e.file_name().to_str()?.parse::<i32>().ok()));
            pids.dedup();
        }
        let mut table: Vec<(i32, i32, Vec<String>)> = vec![];
        for p in pids {
            let Ok(stat) = std::fs::read_to_string(format!("/proc/{p}/stat")) else { continue };
            // after the name: state, parent, group, ...
            let Some((_, rest)) = stat.rsplit_once(')') else { continue };
            let f: Vec<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
            if f.len() >= 15 {
                table.push((p, f[1].parse().unwrap_or(0), f));
            }
        }
        let mut members: HashSet<i32> = [self.pid].into();
        loop {
            let before = members.len();
            members.extend(table.iter().filter(|x| members.contains(&x.1)).map(|x| x.0).collect::<Vec<_>>());
            if members.len() == before {
                break;
            }
        }
        let mut done = HashSet::new();
        for (p, _, f) in &table {
            if !members.contains(p) || !done.insert(*p) {
                continue;
            }
            cpu += (11..15).map(|k| f[k].parse::<f64>().unwrap_or(0.0)).sum::<f64>() / tick;
            for t in std::fs::read_dir(format!("/proc/{p}/task")).into_iter().flatten().flatten() {
                let Ok(stat) = std::fs::read_to_string(t.path().join("stat")) else { continue };
                let Some((_, rest)) = stat.rsplit_once(')') else { continue };
                active |= !rest.trim_start().starts_with(['S', 'Z', 'X']);
            }
        }
        (cpu, active)
    }
    /// Says why the process will not end: nothing in it has run for `asleep` seconds, or it has
    /// used more than `busy` seconds (of processor time and of real time).
    pub fn stuck(&mut self, asleep: f64, busy: f64) -> Option<String> {
        if Instant::now() < self.next {
            return None;
        }
        self.next = Instant::now() + Duration::from_millis(400);
        let (cpu, active) = self.look();
        self.cpu = self.cpu.max(cpu);
        match self.asleep_since {
            // polling by the harness itself takes a little
            Some((_, before)) if cpu - before < 0.5 => {
                self.awake += active as u32;
            }
            _ => {
                self.asleep_since = Some((Instant::now(), cpu));
                self.awake = 0;
            }
        }
        let quiet = self.asleep_since.unwrap().0.elapsed().as_secs_f64();
        if quiet > asleep && (self.awake as f64) < 0.1 * (quiet / 0.4) {
            return Some(format!("all of its threads have been waiting for {quiet:.0} s"));
        }
        if quiet > asleep {
            self.asleep_since = None;
        }
        if self.cpu > busy && self.start.elapsed().as_secs_f64() > busy {
            return Some(format!("{busy:.0} s of processor time are used"));
        }
        None
    }
}

/// Whether this single case, on its own, does not end.
fn hangs(prop: &str, sub: &str, text: &str, dir: &Path, name: &str, (asleep, busy): (f64, f64), stop: &AtomicBool) -> Option<String> {
    let f = dir.join(name);
    std::fs::write(&f, text).unwrap();
    let mut ch = spawn_child(&["--once", prop, sub, f.to_str().unwrap()], dir, true);
    let mut w = Watch::new(ch.id(), true);
    let start = Instant::now();
    loop {
        if ended(&mut ch).is_some() {
            return None;
        }
        if let Some(why) = w.stuck(asleep, busy) {
            kill_group(&mut ch);
            return Some(format!("the code under test does not end: {why}"));
        }
        if start.elapsed().as_secs_f64() > 4.0 * busy || stop.load(Ordering::Relaxed) {
            kill_group(&mut ch);
            return None;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

/// Runs the checking process; a case that does not end in time is examined on its own meanwhile.
fn run_watched(prop: &Prop, args: &[&str], dir: &Path, limit: Duration, slots: &Slots) -> Result<End, (usize, u64, String)> {
    let mut ch = spawn_child(args, dir, false);
    let mut all = Watch::new(ch.id(), true);
    let (late, asleep, busy) = if thorough() { (900.0, 60.0, 3000.0) } else { (45.0, 30.0, 240.0) };
    let base = base_seed(prop.id);
    let start = Instant::now();
    let mut since: Vec<((u64, u64), Instant)> = (0..SLOTS).map(|t| (slots.get(t), start)).collect();
    let mut seen: HashSet<(u64, u64)> = HashSet::new();
    let verdict: Mutex<Option<(usize, u64, String)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    std::thread::scope(|scope| {
        let stop = &stop;
        let mut examiner: Option<std::thread::ScopedJoinHandle<()>> = None;
        loop {
            if let Some(e) = ended(&mut ch) {
                stop.store(true, Ordering::Relaxed);
                return Ok(e);
            }
            if let Some(v) = verdict.lock().unwrap().take() {
                kill_group(&mut ch);
                return Err(v);
            }
            if start.elapsed() > limit {
                stop.store(true, Ordering::Relaxed);
                kill_group(&mut ch);
                return Ok(End::Timeout);
            }
            let now = Instant::now();
            let mut oldest: Option<(f64, (u64, u64))> = None;
            for (t, s) in since.iter_mut().enumerate() {
                let x = slots.get(t);
                if s.0 != x {
                    *s = (x, now);
                } else if x.0 > 0 {
                    let age = now.duration_since(s.1).as_secs_f64();
                    if age > late && oldest.map(|o| age > o.0).unwrap_or(true) {
                        oldest = Some((age, x));
                    }
                }
            }
            if let Some((age, x)) = oldest {
                // a deadlock that does not come back: everything else is done, and nothing moves
                if let Some(why) = all.stuck(2.0 * asleep, f64::INFINITY) {
                    if examiner.as_ref().map(|e| e.is_finished()).unwrap_or(true) && !seen.is_empty() {
                        kill_group(&mut ch);
                        return Err((x.0 as usize - 1, x.1, format!("the code under test has not ended after {age:.0} s: {why}")));
                    }
                }
                if examiner.as_ref().map(|e| e.is_finished()).unwrap_or(true) {
                    let stuck = since.iter().find(|s| s.0 .0 > 0 && s.1.elapsed().as_secs_f64() > late && !seen.contains(&s.0)).map(|s| s.0);
                    if let Some((si, i)) = stuck {
                        seen.insert((si, i));
                        let verdict = &verdict;
                        examiner = Some(scope.spawn(move || {
                            let sub = &prop.subs[si as usize - 1];
                            let text = sub.case_json(base, i);
                            if let Some(why) = hangs(prop.id, sub.name(), &text, dir, "alone.json", (asleep, busy), stop) {
                                *verdict.lock().unwrap() = Some((si as usize - 1, i, why));
                            }
                        }));
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_secs(1) { 2 } else { 20 }));
        }
    })
}

fn run_child(args: &[&str], scratch: &Path, limit: Duration, quiet: bool) -> End {
    let mut ch = spawn_child(args, scratch, quiet);
    let start = Instant::now();
    loop {
        if let Some(e) = ended(&mut ch) {
            return e;
        }
        if start.elapsed() > limit {
            kill_group(&mut ch);
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_secs(1) { 2 } else { 20 }));
    }
}

fn crash_signal(s: i32) -> bool {
    [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE, libc::SIGTRAP].contains(&s)
}

fn parent(prop: &Prop, dir: &Path, only_sub: Option<&str>) -> i32 {
    let slots_path = dir.join("slots");
    let slots = Slots::open(&slots_path);
    let mut args = vec!["--child", prop.id, slots_path.to_str().unwrap()];
    if let Some(o) = only_sub {
        args.push(o);
    }
    let start = Instant::now();
    let end = match run_watched(prop, &args, dir, hard_limit(), &slots) {
        Ok(e) => e,
        Err((si, i, why)) => {
            let sub = &prop.subs[si];
            let text = sub.case_json(base_seed(prop.id), i);
            println!("  {}/{} case {i}: {why}", prop.id, sub.name());
            let (text, msg, steps) = shrink(&**sub, text, why, |c| hangs(prop.id, sub.name(), c, dir, "smaller.json", (8.0, 12.0), &AtomicBool::new(false)));
            let path = write_replay(prop.id, sub.name(), &msg, &text, steps);
            write_evidence(
                prop.id,
                &prop.assumptions,
                &[(sub.name(), sub.rule(), i + 1, 1, BTreeMap::new(), vec![(i, sample_value(&text))], 0.0)],
                1,
                true,
                start.elapsed().as_secs_f64(),
            );
            report(prop.id, sub.name(), &msg, &path);
            return 1;
        }
    };
    match end {
        End::Code(c @ (0 | 1)) => c,
        End::Code(c) => {
            println!("ERROR: the checking process ended with code {c}");
            2
        }
        End::Timeout => {
            println!("ERROR: no answer within the time limit (inconclusive)");
            for t in 0..SLOTS {
                let (s, i) = slots.get(t);
                if s > 0 {
                    println!("  still running: {}/{} case {i}", prop.id, prop.subs[s as usize - 1].name());
                }
            }
            2
        }
        End::Signal(sig) => {
            if let Ok(p) = std::fs::read_to_string(dir.join("pending")) {
                // died while shrinking a violation that was found already
                let mut l = p.splitn(3, '\n');
                let (sub, path, msg) = (l.next().unwrap(), l.next().unwrap(), l.next().unwrap());
                report(prop.id, sub, msg, Path::new(path));
                return 1;
            }
            println!("  the checking process died from signal {sig}; looking for the case");
            if !crash_signal(sig) {
                println!("ERROR: ended from outside");
                return 2;
            }
            let base = base_seed(prop.id);
            for t in 0..SLOTS {
                let (s, i) = slots.get(t);
                if s == 0 {
                    continue;
                }
                let sub = &prop.subs[s as usize - 1];
                let text = sub.case_json(base, i);
                let f = dir.join("one.json");
                let crashes = |text: &str, times: usize| -> Option<String> {
                    std::fs::write(&f, text).unwrap();
                    for _ in 0..times {
                        match run_child(&["--one", prop.id, sub.name(), f.to_str().unwrap()], dir, Duration::from_secs(60), true) {
                            End::Signal(s) if crash_signal(s) => return Some(format!("the process died from signal {s}")),
                            End::Code(1) => return Some("the check failed (and crashed in the full run)".into()),
                            _ => {}
                        }
                    }
                    None
                };
                if let Some(msg) = crashes(&text, 10) {
                    let (text, msg, steps) = shrink(&**sub, text, msg, |c| crashes(c, 1));
                    let path = write_replay(prop.id, sub.name(), &msg, &text, steps);
                    write_evidence(
                        prop.id,
                        &prop.assumptions,
                        &[(sub.name(), sub.rule(), i + 1, 1, BTreeMap::new(), vec![(i, sample_value(&text))], 0.0)],
                        1,
                        true,
                        start.elapsed().as_secs_f64(),
                    );
                    report(prop.id, sub.name(), &msg, &path);
                    return 1;
                }
            }
            println!("ERROR: the crash could not be reproduced with a single case");
            2
        }
    }
}

/// Entry point of a checking program.
///
/// `check <id> [sub]`, `replay <file>`, `list`
pub fn main(props: Vec<Prop>) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id} here"));
    let quiet_panics = || {
        if std::env::var("VERIF_PANICS").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
    };
    match &a[..] {
        ["list"] => {
            for p in &props {
                for s in &p.subs {
                    println!("{} {}: {}", p.id, s.name(), s.rule());
                }
            }
            0
        }
        ["check", id, rest @ ..] => {
            let dir = std::env::temp_dir().join(format!("walky-verif-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let r = guarded(|| parent(find(id), &dir, rest.first().copied()));
            let _ = std::fs::remove_dir_all(&dir);
            r.unwrap_or_else(|e| {
                println!("ERROR: {e}");
                2
            })
        }
        ["--child", id, slots, rest @ ..] => {
            quiet_panics();
            child(find(id), Path::new(slots), rest.first().copied())
        }
        [how @ ("--one" | "--once"), id, sub, file] => {
            quiet_panics();
            let p = find(id);
            let s = p.subs.iter().find(|s| s.name() == *sub).unwrap();
            // with `--once`, what depends on the system's scheduler is not tried repeatedly
            let mut cx = Cx { verbose: *how == "--one", ..Cx::default() };
            match s.run_json(&std::fs::read_to_string(file).unwrap(), &mut cx) {
                Ok(()) => 0,
                Err(m) => {
                    println!("{m}");
                    1
                }
            }
        }
        ["replay", file] => {
            let r: Replay = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let dir = std::env::temp_dir().join(format!("walky-verif-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let f = dir.join("one.json");
            std::fs::write(&f, serde_json::to_string(&r.case).unwrap()).unwrap();
            if r.message.contains("does not end") || r.message.contains("has not ended") {
                if let Some(why) = hangs(&r.property, &r.sub, &serde_json::to_string(&r.case).unwrap(), &dir, "one.json", (30.0, 240.0), &AtomicBool::new(false)) {
                    let _ = std::fs::remove_dir_all(&dir);
                    println!("{why}");
                    println!("VIOLATION property={} replay={file}", r.property);
                    return 1;
                }
            }
            let e = run_child(&["--one", &r.property, &r.sub, f.to_str().unwrap()], &dir, Duration::from_secs(300), false);
            let _ = std::fs::remove_dir_all(&dir);
            match e {
                End::Code(0) => {
                    println!("replay of {file}: the property holds for this case");
                    0
                }
                End::Code(1) => {
                    println!("VIOLATION property={} replay={file}", r.property);
                    1
                }
                End::Signal(s) if crash_signal(s) => {
                    println!("died from signal {s}");
                    println!("VIOLATION property={} replay={file}", r.property);
                    1
                }
                _ => 2,
            }
        }
        _ => {
            eprintln!("usage: check <id> [sub] | replay <file> | list");
            2
        }
    }
}
