//! P03, P04 and P05: MPI programs in a simulated MPI world, see `sim.rs`.
#[path = "../../checks/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../checks/src/doc.rs"]
#[allow(dead_code)]
mod doc;
mod job;
mod sim;

use common::valid_tour;
use engine::{ensure, oracle, CheckResult, Cx, Gen, Inst, Prop, Sub};
use job::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

fn program(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}

#[derive(Clone, Serialize, Deserialize)]
struct Lib {
    task: Task,
    ranks: usize,
    schedule: u64,
    seed: u64,
}

fn record(o: &sim::Outcome, ranks: usize, cx: &mut Cx) {
    cx.nontrivial_if(ranks >= 2 && o.choices > 0);
    if o.unexpected > 0 {
        cx.label("early_messages");
    }
    if o.rendezvous > 0 {
        cx.label("blocking_sends");
    }
    cx.label(match ranks {
        1 => "ranks_1",
        2 => "ranks_2",
        3..=4 => "ranks_3_4",
        5..=8 => "ranks_5_8",
        _ => "ranks_9_more",
    });
}

fn run_lib(c: &Lib, cx: &mut Cx) -> Result<Vec<Answer>, String> {
    let mut arg = serde_json::to_string(&c.task).unwrap();
    let file = scratch_file("json");
    if arg.len() > 100_000 {
        // too long for a command line
        std::fs::write(&file, arg).unwrap();
        arg = format!("@{}", file.display());
    }
    let w = sim::World { program: program("rank"), args: vec![arg], ranks: c.ranks, schedule: c.schedule, seed: c.seed };
    let o = sim::run(&w, cx.verbose);
    let _ = std::fs::remove_file(&file);
    let o = o?;
    record(&o, c.ranks, cx);
    o.ranks
        .iter()
        .enumerate()
        .map(|(r, x)| {
            let l = x.out.lines().rev().find_map(|l| l.strip_prefix(MARK)).ok_or(format!("process {r} returned nothing"))?;
            serde_json::from_str(l).map_err(|_| format!("process {r} returned {l} (not a number)"))
        })
        .collect()
}

fn shrink_lib(c: &Lib) -> Vec<Lib> {
    let mut out = vec![];
    for r in [1, 2, 3, c.ranks / 2, c.ranks.saturating_sub(1)] {
        if r >= 1 && r < c.ranks {
            out.push(Lib { ranks: r, ..c.clone() });
        }
    }
    let min = match &c.task.job {
        Job::Matching(..) | Job::ApproxMatching(..) => c.task.inst.n,
        Job::SomeStarts(k) => *k,
        _ => 2,
    };
    let metric = matches!(c.task.job, Job::Christofides);
    for inst in c.task.inst.shrink(min, metric) {
        out.push(Lib { task: Task { inst, job: c.task.job.clone() }, ..c.clone() });
    }
    match &c.task.job {
        Job::Matching(m, t) => {
            if m.len() > 1 {
                for k in [m.len() / 2, m.len() - 1] {
                    if k >= 1 {
                        out.push(Lib { task: Task { job: Job::Matching(m[..k].to_vec(), *t), ..c.task.clone() }, ..c.clone() });
                    }
                }
            }
            if *t > 0 {
                out.push(Lib { task: Task { job: Job::Matching(m.clone(), t / 2), ..c.task.clone() }, ..c.clone() });
            }
        }
        Job::Static(k) if *k > 1 => {
            out.push(Lib { task: Task { job: Job::Static(k - 1), ..c.task.clone() }, ..c.clone() });
        }
        _ => {}
    }
    out
}

/// process counts: one, few, about the number of cities, far more
fn ranks(g: &mut Gen, n: usize, most: usize) -> usize {
    let r = match g.below(10) {
        0 => 1,
        1..=3 => g.range(2, 3),
        4..=6 => g.range(2, 6),
        7 => n + g.below(3),
        8 => g.range(n, 2 * n + 1),
        _ => g.range(1, most),
    };
    r.min(most)
}

// ------------------------------------------------------------------ P03

fn gen_exact(g: &mut Gen, idx: u64) -> Lib {
    let n = match g.below(20) {
        0 => 2,
        1..=2 => 3,
        3..=12 => g.range(4, 6),
        13..=18 => 7,
        _ => 8,
    };
    let inst = Inst::any(g, n);
    let job = match idx % 5 {
        0 | 1 => Job::Dynamic,
        2 => Job::StaticDefault,
        _ => {
            let k = *g.pick(&[1, 1, 2, 2, 3, 4, n - 1, n, n + 1]);
            // the number of prefixes is limited by the time they take
            Job::Static(k.clamp(1, if n >= 7 { 3 } else if n == 6 { 4 } else { n + 1 }))
        }
    };
    let most = match n {
        2 => 12,
        3 => 32,
        4 => if g.chance(0.1) { 70 } else { 20 },
        _ => 16,
    };
    let ranks = if n <= 4 && g.chance(0.15) { most } else { ranks(g, n, most) };
    Lib { task: Task { job, inst }, ranks, schedule: g.u64(), seed: g.u64() }
}

fn gen_exact_larger(g: &mut Gen, idx: u64) -> Lib {
    let inst = if idx % 8 == 7 {
        Inst::new(g.range(11, 12), "roads", g.u64())
    } else {
        Inst::new(g.range(9, 10), *g.pick(&["euclid", "cluster", "int_big", "uniform", "planted"]), g.u64())
    };
    let job = match idx % 3 {
        0 => Job::Dynamic,
        1 => Job::StaticDefault,
        _ => Job::Static(g.range(1, 2)),
    };
    Lib { task: Task { job, inst }, ranks: g.range(2, 12), schedule: g.u64(), seed: g.u64() }
}

fn run_exact(c: &Lib, cx: &mut Cx) -> CheckResult {
    let answers = run_lib(c, cx)?;
    let inst = &c.task.inst;
    let best = oracle::held_karp(inst);
    cx.label(format!("n_{}", inst.n));
    for (r, a) in answers.iter().enumerate() {
        let Answer::Tour(cost, tour) = a else { return Err(format!("process {r} returned {a:?}")) };
        valid_tour(inst, *cost, tour, &format!("process {r} of {}", c.ranks))?;
        ensure!(oracle::eq(*cost, best), "process {r} of {}: cost {cost}, the optimum is {best}", c.ranks);
        ensure!(a == &answers[0], "process {r} of {} returned {a:?}, process 0 returned {:?}", c.ranks, answers[0]);
    }
    Ok(())
}

// ------------------------------------------------------------------ P05

fn gen_lib(g: &mut Gen, n: usize, inst: Inst, job: Job) -> Lib {
    let ranks = ranks(g, n, 20);
    Lib { task: Task { job, inst }, ranks, schedule: g.u64(), seed: g.u64() }
}

fn gen_nn(g: &mut Gen, i: u64) -> Lib {
    let n = if i % 400 == 200 { g.range(151, 300) } else if g.chance(0.02) { g.range(41, 150) } else if g.chance(0.6) { g.range(2, 8) } else { g.range(2, 40) };
    let inst = Inst::any(g, n);
    let job = if g.chance(0.1) { Job::SomeStarts(g.range(1, n)) } else { Job::NearestNeighbour };
    gen_lib(g, n, inst, job)
}

/// cost of the sequential answer
fn best_greedy(inst: &Inst) -> f64 {
    walky::solvers::approximate::nearest_neighbour::nearest_neighbour::<{ walky::computation_mode::SEQ_COMPUTATION }>(&common::na(inst)).0
}

fn run_nn(c: &Lib, cx: &mut Cx) -> CheckResult {
    let answers = run_lib(c, cx)?;
    let inst = &c.task.inst;
    let best = best_greedy(inst);
    for (r, a) in answers.iter().enumerate() {
        let Answer::Tour(cost, tour) = a else { return Err(format!("process {r} returned {a:?}")) };
        valid_tour(inst, *cost, tour, &format!("process {r} of {}", c.ranks))?;
        ensure!(oracle::eq(*cost, best), "process {r} of {}: cost {cost}, sequentially {best}", c.ranks);
        ensure!(a == &answers[0], "process {r} of {} returned {a:?}, process 0 returned {:?}", c.ranks, answers[0]);
    }
    Ok(())
}

fn gen_bound(g: &mut Gen, idx: u64) -> Lib {
    let n = if idx % 500 == 250 { g.range(129, 300) } else if g.chance(0.02) { g.range(31, 120) } else if g.chance(0.6) { g.range(2, 8) } else { g.range(2, 30) };
    let inst = Inst::any(g, n);
    gen_lib(g, n, inst, if idx % 4 == 0 { Job::Mst } else { Job::OneTree })
}

fn one_tree_bound(inst: &Inst) -> f64 {
    if inst.n == 2 {
        // no 1-tree in the strict sense; the sequential function is the reference
        let m = common::na(inst);
        return walky::one_tree::one_tree_lower_bound::<{ walky::computation_mode::SEQ_COMPUTATION }>(&m);
    }
    (0..inst.n).map(|s| oracle::one_tree(inst, s)).fold(f64::NEG_INFINITY, f64::max)
}

fn run_bound(c: &Lib, cx: &mut Cx) -> CheckResult {
    let answers = run_lib(c, cx)?;
    let inst = &c.task.inst;
    match c.task.job {
        Job::Mst => {
            cx.label("mst");
            let want = oracle::kruskal(inst, &[]);
            for (r, a) in answers.iter().enumerate() {
                let Answer::Tree(t) = a else { return Err(format!("process {r} returned {a:?}")) };
                let mut sum = 0.0;
                let mut edges = 0;
                let mut dsu = oracle::Dsu::new(inst.n);
                for (i, v) in t.iter().enumerate() {
                    for &(j, x) in v {
                        ensure!(j < inst.n && j != i && x == inst.d(i, j), "process {r}: edge {i}-{j} with weight {x}");
                        ensure!(t[j].iter().any(|e| e.0 == i), "process {r}: edge {i}-{j} in one direction only");
                        if i < j {
                            ensure!(dsu.union(i, j), "process {r}: a cycle through {i}-{j}");
                            sum += x;
                            edges += 1;
                        }
                    }
                }
                ensure!(t.len() == inst.n && edges == inst.n - 1, "process {r}: {edges} edges for {} vertices", inst.n);
                ensure!(oracle::eq(sum, want), "process {r}: spanning tree of weight {sum}, the minimum is {want}");
            }
        }
        _ => {
            cx.label("one_tree");
            let want = one_tree_bound(inst);
            let Answer::Bound(Some(b)) = answers[0] else { return Err(format!("process 0 returned {:?}", answers[0])) };
            ensure!(oracle::eq(b, want), "1-tree bound {b} with {} processes, the sequential bound is {want}", c.ranks);
        }
    }
    Ok(())
}

fn gen_christofides(g: &mut Gen, i: u64) -> Lib {
    let n = if i % 400 == 200 { g.range(200, 400) } else if g.chance(0.02) { g.range(26, 120) } else if g.chance(0.6) { g.range(2, 8) } else { g.range(2, 25) };
    let inst = Inst::metric(g, n);
    gen_lib(g, n, inst, Job::Christofides)
}

fn run_christofides(c: &Lib, cx: &mut Cx) -> CheckResult {
    let answers = run_lib(c, cx)?;
    let Answer::Tour(cost, tour) = &answers[0] else { return Err(format!("process 0 returned {:?}", answers[0])) };
    let inst = &c.task.inst;
    // the tour may repeat its first city at the end
    let open = if tour.len() == inst.n + 1 && tour.first() == tour.last() { &tour[..inst.n] } else { &tour[..] };
    valid_tour(inst, *cost, open, "process 0")
}

fn gen_matching(g: &mut Gen, idx: u64) -> Lib {
    let n = if idx % 400 == 200 { g.range(300, 600) } else if g.chance(0.02) { g.range(31, 200) } else if g.chance(0.6) { g.range(2, 8) } else { g.range(2, 30) };
    let inst = Inst::any(g, n);
    let pairs = g.range(1, n / 2);
    let vs = g.subset(n, 2 * pairs);
    let mut vs: Vec<usize> = vs;
    g.shuffle(&mut vs);
    let tries = *g.pick(&[0, 1, 2, 5, 20, 100]);
    let job = if idx % 3 == 0 {
        Job::ApproxMatching(vs, tries)
    } else {
        Job::Matching(vs.chunks(2).map(|c| [c[0], c[1]]).collect(), tries)
    };
    gen_lib(g, n, inst, job)
}

fn run_matching(c: &Lib, cx: &mut Cx) -> CheckResult {
    let answers = run_lib(c, cx)?;
    let inst = &c.task.inst;
    let cost = |m: &[[usize; 2]]| m.iter().map(|&[a, b]| inst.d(a, b)).sum::<f64>();
    let (mut want, initial): (Vec<usize>, Option<f64>) = match &c.task.job {
        Job::Matching(m, _) => (m.iter().flatten().copied().collect(), Some(cost(m))),
        Job::ApproxMatching(v, _) => (v.clone(), None),
        _ => unreachable!(),
    };
    want.sort_unstable();
    for (r, a) in answers.iter().enumerate() {
        let Answer::Matching(m) = a else { return Err(format!("process {r} returned {a:?}")) };
        let mut got: Vec<usize> = m.iter().flatten().copied().collect();
        got.sort_unstable();
        ensure!(got == want, "process {r} of {}: {m:?} is no perfect matching of {want:?}", c.ranks);
        if let Some(x) = initial {
            ensure!(oracle::le(cost(m), x), "process {r} of {}: matching of cost {}, it was {x} before the improvement", c.ranks, cost(m));
        }
        let norm = |m: &[[usize; 2]]| {
            let mut v: Vec<[usize; 2]> = m.iter().map(|e| [e[0].min(e[1]), e[0].max(e[1])]).collect();
            v.sort_unstable();
            v
        };
        let Answer::Matching(first) = &answers[0] else { unreachable!() };
        ensure!(norm(m) == norm(first), "process {r} of {} has the matching {m:?}, process 0 has {first:?}", c.ranks);
    }
    Ok(())
}

/// Many runs on one small problem: a single process finds its best pairing now and then, 16 processes almost always.
#[derive(Clone, Serialize, Deserialize)]
struct Best {
    inst: Inst,
    matching: Vec<[usize; 2]>,
    seed: u64,
}

const SINGLE_RUNS: u64 = 100;
const JOINT_RUNS: u64 = 24;
const JOINT_RANKS: usize = 16;

fn gen_best(g: &mut Gen, _: u64) -> Best {
    let n = g.range(6, 8);
    let inst = Inst::new(n, *g.pick(&["euclid", "int_big", "uniform", "cluster"]), g.u64());
    let k = 2 * g.range(3, n / 2);
    let mut vs = g.subset(n, k);
    g.shuffle(&mut vs);
    Best { inst, matching: vs.chunks(2).map(|c| [c[0], c[1]]).collect(), seed: g.u64() }
}

fn run_best(c: &Best, cx: &mut Cx) -> CheckResult {
    let mut g = Gen::new(c.seed);
    let mut costs = |ranks: usize, runs: u64| -> Result<Vec<f64>, String> {
        let mut v = vec![];
        for _ in 0..runs {
            let task = Task { job: Job::Matching(c.matching.clone(), 1), inst: c.inst.clone() };
            let arg = serde_json::to_string(&task).unwrap();
            let w = sim::World { program: program("rank"), args: vec![arg], ranks, schedule: g.u64(), seed: g.u64() };
            let o = sim::run(&w, false)?;
            let l = o.ranks[0].out.lines().rev().find_map(|l| l.strip_prefix(MARK)).ok_or("process 0 returned nothing")?;
            let Ok(Answer::Matching(m)) = serde_json::from_str(l) else { return Err(format!("process 0 returned {l}")) };
            v.push(m.iter().map(|&[a, b]| c.inst.d(a, b)).sum());
        }
        Ok(v)
    };
    let single = costs(1, SINGLE_RUNS)?;
    let best = single.iter().copied().fold(f64::INFINITY, f64::min);
    let found = single.iter().filter(|&&x| oracle::le(x, best)).count() as u64;
    // the chance that none of 16 processes finds it is below 1 percent from here on
    let telling = found * 10 >= 3 * SINGLE_RUNS && found * 10 <= 6 * SINGLE_RUNS;
    cx.nontrivial_if(telling);
    cx.label(if telling { "found_by_some" } else { "found_by_nearly_all_or_none" });
    if telling {
        let joint = costs(JOINT_RANKS, JOINT_RUNS)?;
        let found_jointly = joint.iter().filter(|&&x| oracle::le(x, best)).count() as u64;
        ensure!(
            found_jointly * 8 > JOINT_RUNS * 5,
            "one process finds a pairing of cost {best} in {found} of {SINGLE_RUNS} runs, {JOINT_RANKS} processes together in only {found_jointly} of {JOINT_RUNS}"
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ P04

#[derive(Clone, Serialize, Deserialize)]
struct Tool {
    inst: Inst,
    args: Vec<String>,
    ranks: usize,
    schedule: u64,
    seed: u64,
}

const BOUNDS: [&str; 3] = ["one-tree", "mst", "mst-queue"];

fn gen_tool(g: &mut Gen, idx: u64) -> Tool {
    let mut args: Vec<&str> = match idx % 12 {
        0 | 1 => vec!["exact", "v0"],
        2 | 3 => vec!["exact", "v1"],
        4 => vec!["approx", "nearest-neighbour"],
        5 => vec!["approx", "christofides"],
        6 | 7 => vec!["approx", "nearest-neighbour", "-l", BOUNDS[g.below(3)]],
        8 | 9 => vec!["approx", "christofides", "-l", BOUNDS[g.below(3)]],
        10 => vec!["lower-bound", "one-tree"],
        _ => vec!["lower-bound", BOUNDS[g.below(3)]],
    };
    if idx % 24 == 5 {
        args.extend(["--lower-bound", "one-tree"]);
    }
    let exact = args[0] == "exact";
    let n = if exact {
        *g.pick(&[2, 3, 4, 5, 5, 6, 6, 7])
    } else if g.chance(0.6) {
        g.range(2, 7)
    } else if g.chance(0.05) {
        g.range(26, 100)
    } else {
        g.range(2, 25)
    };
    let inst = if args[1] == "christofides" { Inst::metric(g, n) } else { Inst::any(g, n) };
    // up to more workers than there are prefixes
    let most = if n == 3 { 32 } else { 16 };
    let ranks = if exact && n == 3 && g.chance(0.3) { g.range(28, 32) } else { ranks(g, n, most) };
    Tool { ranks, inst, args: args.iter().map(|s| s.to_string()).collect(), schedule: g.u64(), seed: g.u64() }
}

fn shrink_tool(c: &Tool) -> Vec<Tool> {
    let mut out = vec![];
    if let Some(i) = c.args.iter().position(|a| a == "-l" || a == "--lower-bound") {
        let mut t = c.clone();
        t.args.truncate(i);
        out.push(t);
    }
    for r in [1, 2, 3, c.ranks / 2, c.ranks.saturating_sub(1)] {
        if r >= 1 && r < c.ranks {
            out.push(Tool { ranks: r, ..c.clone() });
        }
    }
    for inst in c.inst.shrink(2, c.args[1] == "christofides") {
        out.push(Tool { inst, ..c.clone() });
    }
    out
}

fn number(out: &str, label: &str) -> Result<f64, String> {
    let l = out.lines().find_map(|l| l.trim().strip_prefix(label)).ok_or(format!("process 0 prints no line {label:?}, but {out:?}"))?;
    l.trim().parse().map_err(|_| format!("no number in the line {label:?} of {out:?}"))
}

fn list(out: &str, label: &str) -> Result<Vec<usize>, String> {
    let bad = || format!("process 0 prints no list {label:?}, but {out:?}");
    let l = out.lines().find_map(|l| l.trim().strip_prefix(label)).ok_or_else(bad)?;
    let l = l.trim().strip_prefix('[').and_then(|l| l.strip_suffix(']')).ok_or_else(bad)?;
    l.split(',').map(|t| t.trim().parse().map_err(|_| bad())).collect()
}

fn scratch_file(kind: &str) -> PathBuf {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    engine::scratch().join(format!("{}-{}.{kind}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)))
}

fn run_tool(c: &Tool, cx: &mut Cx) -> CheckResult {
    let file = scratch_file("xml");
    std::fs::write(&file, doc::Doc::plain(&c.inst).text()).unwrap();
    let mut args = c.args.clone();
    args.insert(2, file.to_str().unwrap().into());
    args.extend(["-p".to_string(), "mpi".to_string()]);
    let w = sim::World { program: program("walky-mpi"), args, ranks: c.ranks, schedule: c.schedule, seed: c.seed };
    let o = sim::run(&w, cx.verbose);
    let _ = std::fs::remove_file(&file);
    let o = o.map_err(|e| format!("{} processes, {}: {e}", c.ranks, c.args.join(" ")))?;
    record(&o, c.ranks, cx);
    cx.label(c.args.join("_").replace("_-l_", "+").replace("_--lower-bound_", "+"));
    let out = &o.ranks[0].out;
    let inst = &c.inst;
    let who = format!("{} with {} processes", c.args.join(" "), c.ranks);
    match (c.args[0].as_str(), c.args[1].as_str()) {
        ("exact", _) => {
            let cost = number(out, "Best Cost:")?;
            valid_tour(inst, cost, &list(out, "Best Permutation:")?, &who)?;
            let best = oracle::held_karp(inst);
            ensure!(oracle::eq(cost, best), "{who}: cost {cost}, the optimum is {best}");
        }
        ("approx", "nearest-neighbour") => {
            let cost = number(out, "Nearest Neighbour solution weight:")?;
            valid_tour(inst, cost, &list(out, "Nearest Neighbour solution:")?, &who)?;
            let best = best_greedy(inst);
            ensure!(oracle::eq(cost, best), "{who}: cost {cost}, sequentially {best}");
        }
        ("approx", _) => {
            let cost = number(out, "Christofides solution weight:")?;
            let mst = oracle::kruskal(inst, &[]);
            ensure!(oracle::le(mst, cost), "{who}: tour of length {cost}, but a spanning tree needs {mst}");
        }
        _ => {}
    }
    let bound = if c.args[0] == "lower-bound" {
        Some(c.args[1].as_str())
    } else {
        c.args.iter().position(|a| a == "-l" || a == "--lower-bound").map(|i| c.args[i + 1].as_str())
    };
    match bound {
        Some("one-tree") => {
            let b = number(out, "1-tree lower bound:")?;
            let want = one_tree_bound(inst);
            ensure!(oracle::eq(b, want), "{who}: bound {b}, expected {want}");
        }
        Some(_) => {
            let b = number(out, "MST lower bound:")?;
            let want = oracle::kruskal(inst, &[]);
            ensure!(oracle::eq(b, want), "{who}: bound {b}, expected {want}");
        }
        None => {}
    }
    Ok(())
}

const TRUST: &[&str] = &[
    "the MPI simulator (vendor/mpi-sys, checks-mpi/src/sim.rs) allows exactly the behaviour the MPI standard allows, or less",
    "processes share no state but their messages",
];

fn main() {
    let props = vec![
        Prop {
            id: "P03",
            assumptions: TRUST.to_vec(),
            subs: vec![Box::new(Sub {
                name: "mpi_exact",
                rule: "solver (static with prefix length, static, dynamic) x instance (n 2..8) x processes (1..70) x schedule; non-trivial: at least two processes and at least one moment with a choice",
                quick: 8_000,
                thorough: 150_000,
                threads: 0,
                gen: gen_exact,
                run: run_exact,
                shrink: shrink_lib,
            }),
            Box::new(Sub {
                name: "mpi_exact_larger",
                rule: "as mpi_exact with n=9..10 (every 8th time 11..12), 2..12 processes and families where the search is short",
                quick: 200,
                thorough: 10_000,
                threads: 0,
                gen: gen_exact_larger,
                run: run_exact,
                shrink: shrink_lib,
            })],
        },
        Prop {
            id: "P04",
            assumptions: TRUST.to_vec(),
            subs: vec![Box::new(Sub {
                name: "mpi_commands",
                rule: "MPI command line x instance (n 2..25, some up to 100) x processes (1..32) x schedule; non-trivial: at least two processes and at least one moment with a choice",
                quick: 12_000,
                thorough: 200_000,
                threads: 0,
                gen: gen_tool,
                run: run_tool,
                shrink: shrink_tool,
            })],
        },
        Prop {
            id: "P05",
            assumptions: TRUST.to_vec(),
            subs: vec![
                Box::new(Sub {
                    name: "mpi_nearest_neighbour",
                    rule: "instance (n 2..40, some up to 150 or 300) x processes x schedule; non-trivial: at least two processes and a choice",
                    quick: 5_000,
                    thorough: 60_000,
                    threads: 0,
                    gen: gen_nn,
                    run: run_nn,
                    shrink: shrink_lib,
                }),
                Box::new(Sub {
                    name: "mpi_bounds",
                    rule: "1-tree and MST x instance (n 2..30, some up to 120 or 300) x processes x schedule; non-trivial: at least two processes and a choice",
                    quick: 5_000,
                    thorough: 60_000,
                    threads: 0,
                    gen: gen_bound,
                    run: run_bound,
                    shrink: shrink_lib,
                }),
                Box::new(Sub {
                    name: "mpi_christofides",
                    rule: "metric instance (n 2..25, some up to 120 or 400) x processes x schedule; non-trivial: at least two processes and a choice",
                    quick: 4_000,
                    thorough: 50_000,
                    threads: 0,
                    gen: gen_christofides,
                    run: run_christofides,
                    shrink: shrink_lib,
                }),
                Box::new(Sub {
                    name: "mpi_matching",
                    rule: "instance (n 2..30, some up to 200 or 600) x even vertex set x initial matching x tries x processes x schedule; non-trivial: at least two processes and a choice",
                    quick: 6_000,
                    thorough: 60_000,
                    threads: 0,
                    gen: gen_matching,
                    run: run_matching,
                    shrink: shrink_lib,
                }),
                Box::new(Sub {
                    name: "mpi_best_matching",
                    rule: "instance (n 6..8) x initial matching with 3..4 edges, one try: 100 runs with one process, 24 runs with 16 processes, which together have to find the best pairing in nearly every run (at most 8 misses are accepted, each having a chance below 1 percent); non-trivial: one process finds it in 30 to 60 percent of the runs",
                    quick: 24,
                    thorough: 400,
                    threads: 0,
                    gen: gen_best,
                    run: run_best,
                    shrink: |c| {
                        let mut v = vec![];
                        if c.matching.len() > 3 {
                            v.push(Best { matching: c.matching[1..].to_vec(), ..c.clone() });
                        }
                        v
                    },
                }),
            ],
        },
    ];
    std::process::exit(engine::main(props));
}
