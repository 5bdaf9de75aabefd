//! P18 and the command line part of P14: every case starts the real program.
use crate::approx::check_greedy;
use crate::common::*;
use crate::doc::Doc;
use crate::parse::Bad;
use engine::{ensure, oracle, CheckResult, Cx, Gen, Inst, Prop, Sub};
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub fn program(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}

pub struct Output {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

/// Runs a program of the code under test; killed if it does not seem to end.
pub fn run(cmd: &mut Command) -> Result<Output, String> {
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let what: String = format!("{cmd:?}").chars().take(300).collect();
    let mut ch = cmd.spawn().expect("cannot start the program");
    let mut watch = engine::Watch::new(ch.id(), false);
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let reader = |r: &mut dyn std::io::Read| {
        let mut v = vec![];
        let _ = r.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    };
    std::thread::scope(|s| {
        let a = s.spawn(move || reader(&mut so));
        let b = s.spawn(move || reader(&mut se));
        let start = Instant::now();
        let mut nap = 100;
        let st = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break st;
            }
            if start.elapsed() > Duration::from_secs(10) {
                if let Some(why) = watch.stuck(40.0, 240.0) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err(format!("{what} does not end: {why}"));
                }
            }
            if start.elapsed() > Duration::from_secs(400) {
                let _ = ch.kill();
                let _ = ch.wait();
                eprintln!("ERROR: {what} did not end within 400 s, without using the processor");
                std::process::exit(2);
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 2).min(5000);
        };
        Ok(Output { code: st.code(), out: a.join().unwrap(), err: b.join().unwrap() })
    })
}

pub fn temp(name: &str) -> PathBuf {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    engine::scratch().join(format!("{}-{}-{name}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)))
}

struct TempFile(PathBuf);
impl TempFile {
    fn new(name: &str, text: &[u8]) -> TempFile {
        let p = temp(name);
        std::fs::write(&p, text).unwrap();
        TempFile(p)
    }
}
impl Drop for TempFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn walky(tool: &Path, args: &[String], seed: u64, threads: usize) -> Result<Output, String> {
    walky_in(Path::new("."), tool, args, seed, threads)
}

fn walky_in<A: AsRef<std::ffi::OsStr>>(dir: &Path, tool: &Path, args: &[A], seed: u64, threads: usize) -> Result<Output, String> {
    let mut c = Command::new(tool);
    c.current_dir(dir).args(args).env("VERIF_RAND_SEED", seed.to_string()).env_remove("RUST_BACKTRACE");
    if threads > 0 {
        c.env("RAYON_NUM_THREADS", threads.to_string());
    }
    run(&mut c)
}

/// A folder of its own with the instance under one of several names.
struct Placed {
    dir: PathBuf,
    /// how the file is named on the command line
    arg: std::ffi::OsString,
}

/// number of ways to name it; 0: by its full path, as inst.xml
const PLACES: usize = 16;

impl Placed {
    fn new(place: usize, text: &[u8]) -> Placed {
        use std::os::unix::ffi::OsStrExt;
        let dir = temp("dir");
        std::fs::create_dir(&dir).unwrap();
        let long = "x".repeat(200);
        let (name, relative): (&[u8], Option<&str>) = match place {
            1 => (b"inst", None),
            2 => (b"INSTANCE.XML", None),
            3 => (b"a b  c.tsp", None),
            4 => ("Z\u{fc}rich-\u{3c0}-\u{6771}.xml".as_bytes(), None),
            5 => (b"inst\xff\xfe.xml", None),
            6 => (long.as_bytes(), None),
            7 => (b"inst.xml", Some("inst.xml")),
            8 => (b"inst.xml", Some("./sub/..//inst.xml")),
            9 => (b"-5.xml", Some("./-5.xml")),
            10 => (b"link", None),
            11 => (b"42", Some("42")),
            12 => (b".hidden", Some(".hidden")),
            13 => (b"inst.xml.gz", None),
            14 => (b"mst", Some("mst")),
            15 => (b"a=b,c;%20'$HOME'*?.xml", Some("a=b,c;%20'$HOME'*?.xml")),
            _ => (b"inst.xml", None),
        };
        let path = dir.join(std::ffi::OsStr::from_bytes(name));
        if place == 10 {
            std::fs::write(dir.join("target"), text).unwrap();
            std::os::unix::fs::symlink("target", &path).unwrap();
        } else {
            std::fs::write(&path, text).unwrap();
        }
        if place == 8 {
            std::fs::create_dir(dir.join("sub")).unwrap();
        }
        let arg = relative.map_or_else(|| path.into_os_string(), |r| r.into());
        Placed { dir, arg }
    }
}

impl Drop for Placed {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

const RESULTS: &[&str] = &["Best Cost", "Best Permutation", "solution", "lower bound"];

pub fn run_reject_cli(c: &Bad, cx: &mut Cx) -> CheckResult {
    cx.label(c.fault.clone());
    cx.nontrivial_if(true);
    let f = TempFile::new("bad.xml", c.text.as_bytes());
    // the command varies with the text
    let h = engine::gen::hash_bytes(c.text.as_bytes());
    let cmds = [["exact", "v1"], ["exact", "v6"], ["approx", "nearest-neighbour"], ["approx", "christofides"], ["lower-bound", "one-tree"], ["lower-bound", "mst"], ["lower-bound", "mst-queue"]];
    let cmd = cmds[(h % 7) as usize];
    let par = ["single-threaded", "multi-threaded"][(h / 7 % 2) as usize];
    let args: Vec<String> = [cmd[0], cmd[1], f.0.to_str().unwrap(), "-p", par].iter().map(|s| s.to_string()).collect();
    failed(&walky(&program("walky"), &args, 1, 2)?, &format!("{cmd:?} {par} on a file with the fault {:?}", c.fault)).map_err(|e| format!("{e}\n{}", c.text))
}

/// A file whose bytes are no text: a valid document with a broken UTF-8 sequence, or in UTF-16.
#[derive(Clone, Serialize, Deserialize)]
pub struct Bytes {
    what: String,
    bytes: Vec<u8>,
}

pub fn gen_bytes(g: &mut Gen, i: u64) -> Bytes {
    let inst = Inst::new(g.range(2, 6), *g.pick(&["int_small", "uniform", "euclid"]), g.u64());
    let good = Doc::plain(&inst).text().into_bytes();
    let kinds: [(&str, &[&[u8]]); 6] = [
        ("lone continuation", &[&[0x80], &[0xbf], &[b'a', 0xa9, b'b']]),
        ("never used byte", &[&[0xff], &[0xfe], &[0xc0], &[0xf8], &[0xff, 0xfe]]),
        ("overlong", &[&[0xc0, 0xaf], &[0xe0, 0x80, 0xaf], &[0xc1, 0xbf], &[0xf0, 0x80, 0x80, 0xaf]]),
        ("surrogate", &[&[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf]]),
        ("too large", &[&[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80]]),
        ("cut sequence", &[&[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98]]),
    ];
    let k = i as usize % 8;
    if k >= 6 {
        let text = String::from_utf8(good).unwrap();
        let bytes = text.encode_utf16().flat_map(|u| if k == 6 { u.to_le_bytes() } else { u.to_be_bytes() }).collect();
        return Bytes { what: "UTF-16 without a mark".into(), bytes };
    }
    let (what, seqs) = kinds[k];
    let find = |t: &[u8]| good.windows(t.len()).position(|w| w == t).map(|p| p + t.len());
    // in the name or the description, in a number, behind a tag, or anywhere
    let at = match g.below(7) {
        0 | 1 => find(b"<name>").unwrap(),
        2 => find(b"<description>").unwrap_or(0).max(1),
        3 => find(b"cost=\"").unwrap(),
        4 => find(b"<graph>").unwrap(),
        // inside the root element
        _ => {
            let from = find(b"<travellingSalesmanProblemInstance>").unwrap();
            let to = find(b"</graph>").unwrap();
            g.range(from, to)
        }
    };
    let mut bytes = good[..at].to_vec();
    bytes.extend_from_slice(*g.pick(seqs));
    bytes.extend_from_slice(&good[at..]);
    Bytes { what: what.into(), bytes }
}

pub fn run_bytes(c: &Bytes, cx: &mut Cx) -> CheckResult {
    cx.label(c.what.clone());
    // inside another sequence the bytes could have become valid
    let broken = std::str::from_utf8(&c.bytes).is_err() || c.what.starts_with("UTF-16");
    cx.nontrivial_if(broken);
    if !broken {
        return Ok(());
    }
    let f = TempFile::new("bytes.xml", &c.bytes);
    let h = engine::gen::hash_bytes(&c.bytes);
    let cmds = [["exact", "v1"], ["exact", "v6"], ["approx", "nearest-neighbour"], ["approx", "christofides"], ["lower-bound", "one-tree"], ["lower-bound", "mst"], ["lower-bound", "mst-queue"]];
    let cmd = cmds[(h % 7) as usize];
    let args: Vec<String> = [cmd[0], cmd[1], f.0.to_str().unwrap()].iter().map(|s| s.to_string()).collect();
    failed(&walky(&program("walky"), &args, 1, 2)?, &format!("{cmd:?} on a file with {:?}", c.what)).map_err(|e| format!("{e}\n{}", String::from_utf8_lossy(&c.bytes)))
}

fn failed(o: &Output, what: &str) -> CheckResult {
    ensure!(o.code != Some(0), "{what}: exit status 0 and output {:?}", o.out);
    ensure!(!RESULTS.iter().any(|r| o.out.contains(r)), "{what}: a result is printed: {:?}", o.out);
    Ok(())
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Call {
    pub inst: Inst,
    pub args: Vec<String>,
    pub seed: u64,
    pub threads: usize,
    pub style: u64,
    #[serde(default)]
    pub place: usize,
}

fn number(line: &str, label: &str) -> Result<f64, String> {
    let Some(x) = line.strip_prefix(label) else { return Err(format!("expected a line with {label:?}, found {line:?}")) };
    x.trim().parse::<f64>().map_err(|_| format!("no number in {line:?}"))
}

fn list(line: &str, label: &str) -> Result<Vec<usize>, String> {
    let Some(x) = line.strip_prefix(label) else { return Err(format!("expected a line with {label:?}, found {line:?}")) };
    let x = x.trim().strip_prefix('[').and_then(|x| x.strip_suffix(']')).ok_or(format!("no list in {line:?}"))?;
    x.split(',').map(|t| t.trim().parse::<usize>().map_err(|_| format!("no list in {line:?}"))).collect()
}

/// the lengths of all tours (n <= 8)
fn all_tours(inst: &Inst) -> Vec<f64> {
    fn rec(inst: &Inst, t: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<f64>) {
        if t.len() == inst.n {
            out.push(inst.circle(t));
            return;
        }
        for c in 1..inst.n {
            if !used[c] {
                used[c] = true;
                t.push(c);
                rec(inst, t, used, out);
                t.pop();
                used[c] = false;
            }
        }
    }
    let mut out = vec![];
    rec(inst, &mut vec![0], &mut vec![false; inst.n], &mut out);
    out
}

pub fn bound(inst: &Inst, name: &str) -> (&'static str, f64) {
    if name == "one-tree" {
        let b = if inst.n == 2 {
            2.0 * inst.d(0, 1)
        } else {
            (0..inst.n).map(|s| oracle::one_tree(inst, s)).fold(0.0, f64::max)
        };
        ("1-tree lower bound:", b)
    } else {
        ("MST lower bound:", oracle::kruskal(inst, &[]))
    }
}

/// Checks the standard output of a successful run.
pub fn check_output(inst: &Inst, args: &[String], out: &str) -> CheckResult {
    let lines: Vec<&str> = out.lines().filter(|l| !l.trim().is_empty()).collect();
    let lb = args.iter().position(|a| a == "-l" || a == "--lower-bound").map(|i| args[i + 1].as_str()).or_else(|| args.iter().find_map(|a| a.strip_prefix("--lower-bound=")));
    let mut want = match (args[0].as_str(), args[1].as_str()) {
        ("exact", _) | ("approx", "nearest-neighbour") => 2,
        _ => 1,
    };
    if lb.is_some() {
        want += 1;
    }
    ensure!(lines.len() == want, "{} lines of output instead of {want}", lines.len());
    let mut rest = 0;
    match (args[0].as_str(), args[1].as_str()) {
        ("exact", _) => {
            let c = number(lines[0], "Best Cost:")?;
            let t = list(lines[1], "Best Permutation:")?;
            crate::exact::check_optimal(inst, &(c, t), "printed result")?;
        }
        ("approx", "nearest-neighbour") => {
            let c = number(lines[0], "Nearest Neighbour solution weight:")?;
            let t = list(lines[1], "Nearest Neighbour solution:")?;
            check_greedy(inst, c, &t, "printed result")?;
            // the best start, if ties do not make the greedy tours ambiguous: never worse than the worst choice
            if distinct(inst) {
                let best = (0..inst.n).map(|s| greedy_cost(inst, s)).fold(f64::INFINITY, f64::min);
                ensure!(oracle::eq(c, best), "printed cost {c}, the best start gives {best}");
            }
            rest = 2;
        }
        ("approx", _) => {
            let c = number(lines[0], "Christofides solution weight:")?;
            if inst.n <= 7 {
                let all = all_tours(inst);
                ensure!(all.iter().any(|&x| oracle::eq(x, c)), "printed cost {c} is the length of no tour");
            } else {
                let low = oracle::kruskal(inst, &[]);
                let high = inst.max() * inst.n as f64;
                ensure!(oracle::le(low, c) && oracle::le(c, high), "printed cost {c} is not between {low} and {high}");
            }
            rest = 1;
        }
        _ => {
            let (label, b) = bound(inst, &args[1]);
            let x = number(lines[0], label)?;
            ensure!(oracle::eq(x, b), "printed bound {x}, it is {b}");
        }
    }
    if let Some(lb) = lb {
        let (label, b) = bound(inst, lb);
        let x = number(lines[rest], label)?;
        ensure!(oracle::eq(x, b), "printed bound {x}, it is {b}");
    }
    Ok(())
}

fn distinct(inst: &Inst) -> bool {
    let mut w = inst.w.clone();
    w.sort_by(|a, b| a.partial_cmp(b).unwrap());
    w.windows(2).all(|p| p[0] != p[1])
}

fn greedy_cost(inst: &Inst, s: usize) -> f64 {
    let mut left: Vec<usize> = (0..inst.n).filter(|&i| i != s).collect();
    let mut at = s;
    let mut sum = 0.0;
    while !left.is_empty() {
        let k = (0..left.len()).min_by(|&a, &b| inst.d(at, left[a]).partial_cmp(&inst.d(at, left[b])).unwrap()).unwrap();
        sum += inst.d(at, left[k]);
        at = left.remove(k);
    }
    sum + inst.d(at, s)
}

pub fn doc_text(inst: &Inst, style: u64) -> String {
    if style == 0 {
        Doc::plain(inst).text()
    } else {
        let mut g = Gen::new(style);
        Doc::describe(&mut g, inst, false).text()
    }
}

fn run_call(c: &Call, cx: &mut Cx) -> CheckResult {
    call(c, cx, false)
}

/// the tool built with its feature `benchmarking`, which adds the elapsed time to every result
fn run_timed(c: &Call, cx: &mut Cx) -> CheckResult {
    call(c, cx, true)
}

fn call(c: &Call, cx: &mut Cx, timed: bool) -> CheckResult {
    cx.label(format!("{}_{}", c.args[0], c.args[1]));
    if c.args.iter().any(|a| a == "multi-threaded") {
        cx.label("multi_threaded");
    }
    cx.nontrivial_if(c.inst.n >= 4);
    let text = doc_text(&c.inst, c.style);
    let f = Placed::new(c.place, text.as_bytes());
    let args: Vec<std::ffi::OsString> = c.args.iter().map(|a| if a == "FILE" { f.arg.clone() } else { a.into() }).collect();
    cx.label(if c.place == 0 { "usual_name" } else { "unusual_name" });
    let tool = if timed { program("../bench/release/checks-bench") } else { program("walky") };
    let begin = std::time::Instant::now();
    let mut o = walky_in(&f.dir, &tool, &args, c.seed, c.threads)?;
    let most = begin.elapsed().as_secs_f64();
    ensure!(o.code == Some(0), "walky {:?} ends with {:?}: {}", c.args, o.code, o.err);
    if timed {
        let (times, rest): (Vec<&str>, Vec<&str>) = o.out.lines().partition(|l| l.starts_with("elapsed"));
        let mut sum = 0.0;
        for t in &times {
            let x = number(t, "elapsed seconds:")?;
            ensure!(x >= 0.0, "walky {:?}: {t:?}", c.args);
            sum += x;
        }
        ensure!(sum <= most + 0.001, "walky {:?} ran for {most} seconds, but prints {times:?}", c.args);
        // one result, or two with a bound
        let want = 1 + c.args.iter().any(|a| a == "-l" || a.starts_with("--lower-bound")) as usize;
        ensure!(times.len() == want, "walky {:?}: {want} times expected, printed are {times:?}", c.args);
        o.out = rest.join("\n");
    }
    check_output(&c.inst, &c.args, &o.out).map_err(|e| format!("walky {:?}: {e}\noutput:\n{}", c.args, o.out))
}

pub fn gen_call(g: &mut Gen, i: u64) -> Call {
    let algs = [
        ("exact", "v0"), ("exact", "v1"), ("exact", "v2"), ("exact", "v3"), ("exact", "v4"), ("exact", "v5"), ("exact", "v6"),
        ("approx", "nearest-neighbour"), ("approx", "christofides"), ("approx", "christofides"),
        ("lower-bound", "one-tree"), ("lower-bound", "mst"), ("lower-bound", "mst-queue"),
    ];
    let (cmd, alg) = algs[i as usize % algs.len()];
    let n = match cmd {
        "exact" => if g.chance(0.05) { g.range(8, 9) } else { size(g, 2, 7) },
        _ => if g.chance(0.7) { size(g, 2, 8) } else if g.chance(0.1) { g.range(41, 150) } else { g.range(9, 40) },
    };
    let inst = if alg == "christofides" { Inst::metric(g, n) } else { Inst::any(g, n) };
    let mut args: Vec<String> = vec![];
    let par = match g.below(5) {
        0 => None,
        1 | 2 => Some("single-threaded"),
        _ => Some("multi-threaded"),
    };
    let mut opts: Vec<Vec<String>> = vec![];
    if let Some(p) = par {
        match g.below(3) {
            0 => opts.push(vec!["-p".into(), p.into()]),
            1 => opts.push(vec!["--parallelism".into(), p.into()]),
            _ => opts.push(vec![format!("--parallelism={p}")]),
        }
    }
    if cmd == "approx" && g.chance(0.5) {
        let b = *g.pick(&["one-tree", "mst", "mst-queue"]);
        match g.below(3) {
            0 => opts.push(vec!["-l".into(), b.into()]),
            1 => opts.push(vec!["--lower-bound".into(), b.into()]),
            _ => opts.push(vec![format!("--lower-bound={b}")]),
        }
    }
    if g.bool() {
        opts.reverse();
    }
    args.push(cmd.into());
    // the options may stand behind the algorithm or at the end
    args.push(alg.into());
    if g.chance(0.3) {
        args.extend(opts.drain(..).flatten());
        args.push("FILE".into());
    } else {
        args.push("FILE".into());
        args.extend(opts.drain(..).flatten());
    }
    Call { inst, args, seed: g.u64(), threads: g.range(0, 8), style: if g.bool() { 0 } else { g.u64() }, place: if g.bool() { 0 } else { g.below(PLACES) } }
}

pub fn shrink_call(c: &Call) -> Vec<Call> {
    let mut v = vec![];
    if c.style != 0 {
        v.push(Call { style: 0, ..c.clone() });
    }
    if c.place != 0 {
        v.push(Call { place: 0, ..c.clone() });
    }
    if c.threads != 1 {
        v.push(Call { threads: 1, ..c.clone() });
    }
    let metric = c.args[1] == "christofides";
    v.extend(c.inst.shrink(2, metric).into_iter().map(|inst| Call { inst, ..c.clone() }));
    v
}

#[derive(Clone, Serialize, Deserialize)]
struct Wrong {
    what: String,
    args: Vec<String>,
    file: Option<Vec<u8>>,
}

const WRONG: &[&str] = &[
    "no_command", "unknown_command", "unknown_algorithm", "no_algorithm", "no_file", "missing_file", "directory", "not_utf8",
    "empty_file", "bad_parallelism", "bad_bound", "bound_not_allowed", "extra_argument", "unknown_option", "option_without_value",
    "algorithm_of_another_command", "empty_path",
];

fn gen_wrong(g: &mut Gen, i: u64) -> Wrong {
    let what = WRONG[i as usize % WRONG.len()];
    let inst = Inst::new(g.range(3, 5), "int_small", g.u64());
    let good = Doc::plain(&inst).text().into_bytes();
    let (cmd, alg) = *g.pick(&[("exact", "v0"), ("exact", "v3"), ("exact", "v6"), ("approx", "nearest-neighbour"), ("approx", "christofides"), ("lower-bound", "one-tree"), ("lower-bound", "mst"), ("lower-bound", "mst-queue")]);
    let mut file = Some(good.clone());
    let a = |v: &[&str]| -> Vec<String> { v.iter().map(|s| s.to_string()).collect() };
    let mut args = match what {
        "no_command" => a(g.pick(&[&["FILE"][..], &[][..]])),
        "unknown_command" => a(&[*g.pick(&["solve", "exac", "Exact", "exact ", "lowerbound", ""]), alg, "FILE"]),
        "unknown_algorithm" => a(&[cmd, *g.pick(&["v7", "v", "V10", "0", "mst2", "nn", "", "onetree"]), "FILE"]),
        "no_algorithm" => a(&[cmd, "FILE"]),
        "no_file" => a(&[cmd, alg]),
        "missing_file" => {
            file = None;
            a(&[cmd, alg, "SCRATCH/there/is/no/such/file.xml"])
        }
        "directory" => {
            file = None;
            a(&[cmd, alg, "SCRATCH"])
        }
        "empty_path" => {
            file = None;
            a(&[cmd, alg, ""])
        }
        "not_utf8" => {
            let mut b = good;
            let at = b.windows(6).position(|w| w == b"<name>").unwrap() + 6;
            b[at] = *g.pick(&[0xff, 0xfe, 0xc0, 0x80]);
            file = Some(b);
            a(&[cmd, alg, "FILE"])
        }
        "empty_file" => {
            file = Some(vec![]);
            a(&[cmd, alg, "FILE"])
        }
        "bad_parallelism" => a(&[cmd, alg, "FILE", "-p", *g.pick(&["mpi2", "threads", "", "2", "multi"])]),
        "bad_bound" => a(&["approx", *g.pick(&["christofides", "nearest-neighbour"]), "FILE", "-l", *g.pick(&["v0", "christofides", "", "tree"])]),
        "bound_not_allowed" => {
            let (c, al) = *g.pick(&[("exact", "v1"), ("lower-bound", "mst")]);
            a(&[c, al, "FILE", "-l", "mst"])
        }
        "extra_argument" => a(&[cmd, alg, "FILE", "FILE"]),
        "unknown_option" => a(&[cmd, alg, "FILE", *g.pick(&["-x", "--threads=2", "--verbose"])]),
        "option_without_value" => a(&[cmd, alg, "FILE", *g.pick(&["-p", "--parallelism"])]),
        _ => match cmd {
            "exact" => a(&[cmd, *g.pick(&["mst", "christofides", "one-tree"]), "FILE"]),
            "approx" => a(&[cmd, *g.pick(&["v0", "v6", "mst"]), "FILE"]),
            _ => a(&[cmd, *g.pick(&["v0", "christofides", "nearest-neighbour"]), "FILE"]),
        },
    };
    if matches!(what, "missing_file" | "directory" | "not_utf8" | "empty_file" | "no_file" | "empty_path") && g.bool() {
        args.extend(a(&["-p", "multi-threaded"]));
    }
    Wrong { what: what.into(), args, file }
}

fn run_wrong(c: &Wrong, cx: &mut Cx) -> CheckResult {
    cx.label(c.what.clone());
    cx.nontrivial_if(true);
    let f = c.file.as_ref().map(|b| TempFile::new("inst.xml", b));
    let dir = engine::scratch();
    let path = |p: &Path| p.to_str().unwrap().to_string();
    let args: Vec<String> = c
        .args
        .iter()
        .map(|a| match a.as_str() {
            "FILE" => path(&f.as_ref().unwrap().0),
            "SCRATCH" => path(&dir),
            _ if a.starts_with("SCRATCH/") => path(&dir.join(&a[8..])),
            _ => a.clone(),
        })
        .collect();
    let o = walky(&program("walky"), &args, 1, 2)?;
    failed(&o, &format!("{}: walky {:?}", c.what, c.args))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P18",
        assumptions: vec![
            "results are found by the labels the program prints today",
            "the printed Christofides cost is matched against the lengths of all tours for n<=7, beyond that only against bounds",
        ],
        subs: vec![
            Box::new(Sub::<Call> {
                name: "commands",
                rule: "random instance file (n=2..7, some 8..9, for exact, 2..40, some up to 150, otherwise; plain or random layout; usual and unusual file names, absolute and relative), every command, algorithm, parallelism setting, bound and option style, one process per case; printed numbers against Held-Karp, all tours, Kruskal. Non-trivial: n>=4",
                quick: 50_000,
                thorough: 300_000,
                threads: 0,
                gen: gen_call,
                run: run_call,
                shrink: shrink_call,
            }),
            Box::new(Sub::<Call> {
                name: "commands_timed",
                rule: "as commands, with the tool built with its feature `benchmarking`: the same results, and for each of them a time that is not longer than the run",
                quick: 6_000,
                thorough: 50_000,
                threads: 0,
                gen: gen_call,
                run: run_timed,
                shrink: shrink_call,
            }),
            Box::new(Sub::<Call> {
                name: "commands_huge",
                rule: "as commands, with bounds and approximations of 550..750 cities (files of up to 50 MB)",
                quick: 8,
                thorough: 60,
                threads: 4,
                gen: |g, i| {
                    let mut c = gen_call(g, [7, 8, 10, 11, 12][i as usize % 5]);
                    let n = g.range(550, 750);
                    c.inst = if c.args[1] == "christofides" { Inst::metric(g, n) } else { Inst::any(g, n) };
                    c
                },
                run: run_call,
                shrink: shrink_call,
            }),
            Box::new(Sub::<Wrong> {
                name: "wrong_calls",
                rule: "17 kinds of wrong command lines and unreadable files; failure status and no result. Every case is non-trivial",
                quick: 17_000,
                thorough: 50_000,
                threads: 0,
                gen: gen_wrong,
                run: run_wrong,
                shrink: |_| vec![],
            }),
        ],
    }]
}
