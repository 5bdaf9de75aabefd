//! P24: a call answers the same whatever ran before it in the process and whatever runs beside it.
//! The history runs in a process of its own; the reference for each call is a fresh process that
//! makes only this call.
use crate::affinity::with_processors;
use crate::cli;
use crate::common::*;
use crate::doc::Doc;
use crate::parse::gen_bad;
use engine::{ensure, guarded, oracle, CheckResult, Cx, Gen, Inst, Prop, Sub};
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{Arc, Barrier};
use walky::computation_mode::{PAR_COMPUTATION as PAR, SEQ_COMPUTATION as SEQ};
use walky::datastructures::{AdjacencyMatrix, Graph, NAMatrix, VecMatrix};
use walky::mst::*;
use walky::one_tree::{one_tree, one_tree_lower_bound};
use walky::parser::TravellingSalesmanProblemInstance as Tsp;
use walky::preconditions::{is_fully_connected, is_multi_edge, is_undirected};
use walky::solvers::approximate::christofides::christofides;
use walky::solvers::approximate::matching::approx_min_cost_matching;
use walky::solvers::approximate::nearest_neighbour::*;
use walky::solvers::{exact, is_hamiltonian_cycle};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    kind: String,
    inst: Inst,
    /// vertices: excluded ones, a start, the ones to be matched, an ordering
    xs: Vec<usize>,
    /// processors for the threaded solver, tries for the matching
    k: usize,
    /// the distances go through a document and the parser
    parsed: bool,
    seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    steps: Vec<Step>,
    /// how many threads make these calls at once
    threads: usize,
    rounds: usize,
    /// if not empty: the calls in this order, each so many times
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    order: Vec<(usize, usize)>,
}

/// What a call answered. Numbers are kept as bits, so that they survive JSON.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Answer {
    value: Option<u64>,
    tour: Vec<usize>,
    edges: Vec<(usize, usize, u64)>,
    text: String,
    /// the call panicked, or changed its input
    fault: Option<String>,
}

const SMALL: &[&str] = &[
    "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v6", "threaded", "threaded", "prim", "prim_par", "prim_queue", "excluded", "excluded_par",
    "excluded_queue", "one_tree", "bound", "bound_par", "nn", "nn_par", "nn_start", "christofides", "christofides_par", "matching",
    "matching_par", "points", "points_par", "parse", "parse", "reject", "metric", "broken", "measure",
];
const LARGE: &[&str] = &[
    "prim", "prim_par", "prim_queue", "excluded", "excluded_par", "excluded_queue", "one_tree", "bound", "bound_par", "nn", "nn_par",
    "nn_start", "christofides", "christofides_par", "matching", "matching_par", "points", "points_par", "parse",
    "reject", "metric", "broken", "measure",
];

/// smallest instance a call takes
fn min_n(kind: &str) -> usize {
    match kind {
        "one_tree" | "bound" | "bound_par" | "christofides" | "christofides_par" => 3,
        _ => 2,
    }
}

fn points(s: &Step) -> Vec<[f64; 2]> {
    let mut g = Gen::new(s.seed);
    (0..s.inst.n).map(|_| [g.f64() * 100.0, g.f64() * 100.0]).collect()
}

fn document(s: &Step) -> Doc {
    let mut d = Doc::plain(&s.inst);
    // several documents of the same name
    d.name = format!("instance{}", s.seed % 2);
    d
}

fn answer(s: &Step, m: &NAMatrix) -> Answer {
    let mut a = Answer { value: None, tour: vec![], edges: vec![], text: String::new(), fault: None };
    let solution = |a: &mut Answer, (c, t): (f64, Vec<usize>)| {
        a.value = Some(c.to_bits());
        a.tour = t;
    };
    let tree = |a: &mut Answer, g: &Graph| {
        a.value = Some(g.undirected_edge_weight().to_bits());
        for v in 0..g.num_vertices() {
            a.edges.extend(g[v].iter().map(|e| (v, e.to, e.cost.to_bits())));
        }
    };
    let number = |a: &mut Answer, x: f64| a.value = Some(x.to_bits());
    match s.kind.as_str() {
        "v0" => solution(&mut a, exact::naive_solver(m)),
        "v1" => solution(&mut a, exact::first_improved_solver(m)),
        "v2" => solution(&mut a, exact::second_improved_solver(m)),
        "v3" => solution(&mut a, exact::third_improved_solver(m)),
        "v4" => solution(&mut a, exact::fourth_improved_solver(m)),
        "v5" => solution(&mut a, exact::fifth_improved_solver(m)),
        "v6" => solution(&mut a, exact::sixth_improved_solver(m)),
        "threaded" => solution(&mut a, with_processors(s.k.max(1), || exact::threaded_solver(m))),
        "prim" => tree(&mut a, &prim::<SEQ>(m)),
        "prim_par" => tree(&mut a, &prim::<PAR>(m)),
        "prim_queue" => tree(&mut a, &prim_with_excluded_node_priority_queue(m, &[])),
        "excluded" => tree(&mut a, &prim_with_excluded_node_single_threaded(m, &s.xs)),
        "excluded_par" => tree(&mut a, &prim_with_excluded_node_multi_threaded(m, &s.xs)),
        "excluded_queue" => tree(&mut a, &prim_with_excluded_node_priority_queue(m, &s.xs)),
        "one_tree" => tree(&mut a, &one_tree(m, s.xs.first().copied().unwrap_or(0))),
        "bound" => number(&mut a, one_tree_lower_bound::<SEQ>(m)),
        "bound_par" => number(&mut a, one_tree_lower_bound::<PAR>(m)),
        "nn" => solution(&mut a, nearest_neighbour::<SEQ>(m)),
        "nn_par" => solution(&mut a, nearest_neighbour::<PAR>(m)),
        "nn_start" => solution(&mut a, single_nearest_neighbour(m, s.xs.first().copied().unwrap_or(0))),
        "christofides" => solution(&mut a, christofides::<SEQ>(m)),
        "christofides_par" => solution(&mut a, christofides::<PAR>(m)),
        "matching" => a.tour = approx_min_cost_matching::<SEQ>(m, s.xs.clone(), s.k).concat(),
        "matching_par" => a.tour = approx_min_cost_matching::<PAR>(m, s.xs.clone(), s.k).concat(),
        "points" | "points_par" => {
            let p = points(s);
            let q = if s.kind == "points" { NAMatrix::from_points(&p) } else { NAMatrix::par_from_points(&p) };
            for i in 0..q.dim() {
                for j in 0..q.dim() {
                    a.edges.push((i, j, q.get(i, j).to_bits()));
                }
            }
        }
        "parse" => {
            let t = Tsp::parse_from_xml(&document(s).text()).unwrap();
            a.text = format!("{} {} {} {} {}", t.name, t.source, t.description, t.double_precision, t.ignored_digits);
            a.text += &format!(" {}", t.do_conditions_hold());
            for v in 0..t.graph.num_vertices() {
                a.edges.extend(t.graph[v].iter().map(|e| (v, e.to, e.cost.to_bits())));
            }
        }
        "metric" => {
            let g = graph(&s.inst);
            a.text = format!("{} {} {} {}", m.is_metric(), is_fully_connected(&g), is_multi_edge(&g), is_undirected(&g));
        }
        "reject" => {
            // a call that fails must not leave anything behind either
            let bad = gen_bad(&mut Gen::new(s.seed), s.seed % 997);
            a.text = match guarded(|| Tsp::parse_from_xml(&bad.text)) {
                Ok(Ok(t)) => format!("accepted: {}", t.graph.num_vertices()),
                _ => "rejected".into(),
            };
        }
        "broken" => {
            let mut g = graph(&s.inst);
            let mut r = Gen::new(s.seed);
            for _ in 0..r.range(1, 2) {
                let v = r.below(s.inst.n);
                let k = g[v].edges.len();
                if k == 0 {
                    continue;
                }
                let e = r.below(k);
                match r.below(3) {
                    0 => {
                        g[v].edges.remove(e);
                    }
                    1 => {
                        let x = g[v].edges[e].clone();
                        g[v].edges.push(x);
                    }
                    _ => g[v].edges[e].cost += 1.0,
                }
            }
            a.text = format!("{} {} {}", is_fully_connected(&g), is_multi_edge(&g), is_undirected(&g));
        }
        "measure" => {
            number(&mut a, m.evaluate_circle(&s.xs));
            a.text = format!("{}", is_hamiltonian_cycle(&s.xs, m));
        }
        other => panic!("unknown call {other}"),
    }
    a
}

fn matrix(s: &Step) -> NAMatrix {
    if s.parsed {
        let g = Tsp::parse_from_xml(&document(s).text()).unwrap().graph;
        if s.seed % 3 == 0 {
            NAMatrix::from(&VecMatrix::from(g))
        } else {
            NAMatrix::from(&g)
        }
    } else {
        na(&s.inst)
    }
}

fn call(s: &Step, kept: Option<&NAMatrix>) -> Answer {
    let r = guarded(|| {
        let own;
        let m = match kept {
            Some(m) => m,
            None => {
                own = matrix(s);
                &own
            }
        };
        let mut a = answer(s, m);
        if !same_matrix(m, &s.inst) {
            a.fault = Some("the matrix passed to the call does not hold the distances any more".into());
        }
        a
    });
    r.unwrap_or_else(|e| Answer { value: None, tour: vec![], edges: vec![], text: String::new(), fault: Some(e) })
}

/// The process that runs a history: prints the distinct answers to each call.
pub fn child(file: &str) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let h: History = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    rayon::ThreadPoolBuilder::new().num_threads(4).build_global().unwrap();
    let n = h.steps.len();
    // with several threads, half of the calls share one matrix among the threads
    let kept: Vec<Option<NAMatrix>> =
        h.steps.iter().map(|s| if h.threads > 1 && s.seed % 4 < 2 { guarded(|| matrix(s)).ok() } else { None }).collect();
    let h = Arc::new(h);
    let start = Barrier::new(h.threads);
    let lists: Vec<Vec<Vec<Answer>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..h.threads)
            .map(|t| {
                let (h, start, kept) = (h.clone(), &start, &kept);
                sc.spawn(move || {
                    let mut seen: Vec<Vec<Answer>> = vec![vec![]; n];
                    let mut make = |i: usize| {
                        rand::verif_seed(h.steps[i].seed);
                        let a = call(&h.steps[i], kept[i].as_ref());
                        if !seen[i].contains(&a) && seen[i].len() < 50 {
                            seen[i].push(a);
                        }
                    };
                    start.wait();
                    for &(i, times) in &h.order {
                        (0..times).for_each(|_| make(i));
                    }
                    for _ in 0..if h.order.is_empty() { h.rounds } else { 0 } {
                        for i in 0..n {
                            make((i + t) % n);
                        }
                    }
                    seen
                })
            })
            .collect();
        hs.into_iter().map(|t| t.join().unwrap()).collect()
    });
    let mut all: Vec<Vec<Answer>> = vec![vec![]; n];
    for l in lists {
        for (i, v) in l.into_iter().enumerate() {
            for a in v {
                if !all[i].contains(&a) {
                    all[i].push(a);
                }
            }
        }
    }
    println!("\nANSWERS {}", serde_json::to_string(&all).unwrap());
    0
}

fn process(h: &History) -> Result<Vec<Vec<Answer>>, String> {
    let f = cli::temp("history.json");
    std::fs::write(&f, serde_json::to_string(h).unwrap()).unwrap();
    let o = cli::run(Command::new(std::env::current_exe().unwrap()).args(["history", f.to_str().unwrap()]));
    let _ = std::fs::remove_file(&f);
    let o = o?;
    match o.out.rsplit_once("ANSWERS ") {
        Some((_, text)) if o.code == Some(0) => Ok(serde_json::from_str(text).unwrap()),
        _ => Err(format!("the process ended with {:?}: {}", o.code, o.err)),
    }
}

fn show(s: &Step) -> String {
    format!("{} {:?} k={}{} on {} cities ({})", s.kind, s.xs, s.k, if s.parsed { " parsed" } else { "" }, s.inst.n, s.inst.kind)
}

/// Is `a` an answer to this call that is as good as the reference?
fn compare(s: &Step, a: &Answer, r: &Answer) -> CheckResult {
    if let Some(e) = &a.fault {
        return Err(format!("it fails: {e}"));
    }
    let num = |x: Option<u64>| f64::from_bits(x.unwrap_or(0));
    let inst = &s.inst;
    match s.kind.as_str() {
        "v0" | "v1" | "v2" | "v3" | "v4" | "v5" | "v6" | "threaded" | "nn" | "nn_par" | "nn_start" => {
            valid_tour(inst, num(a.value), &a.tour, "it")?;
            ensure!(oracle::eq(num(a.value), num(r.value)), "its tour costs {}, alone {}", num(a.value), num(r.value));
            if s.kind == "nn_start" {
                ensure!(a.tour[0] == r.tour[0], "its tour starts at {}, alone at {}", a.tour[0], r.tour[0]);
            }
        }
        "christofides" | "christofides_par" => {
            // a closed tour
            ensure!(a.tour.len() == inst.n + 1 && a.tour[0] == a.tour[inst.n], "{:?} is no closed tour", a.tour);
            valid_tour(inst, num(a.value), &a.tour[..inst.n], "it")?
        }
        "matching" | "matching_par" => {
            let (mut x, mut y) = (a.tour.clone(), s.xs.clone());
            x.sort_unstable();
            y.sort_unstable();
            ensure!(x == y, "it pairs {:?} instead of {:?}", a.tour, s.xs);
        }
        "bound" | "bound_par" => ensure!(oracle::eq(num(a.value), num(r.value)), "it is {}, alone {}", num(a.value), num(r.value)),
        "measure" => {
            ensure!(oracle::eq(num(a.value), num(r.value)), "it is {}, alone {}", num(a.value), num(r.value));
            ensure!(a.text == r.text, "it says {}, alone {}", a.text, r.text);
        }
        "metric" | "reject" | "broken" => ensure!(a.text == r.text, "it says {}, alone {}", a.text, r.text),
        "points" | "points_par" => {
            let same = a.edges.len() == r.edges.len()
                && a.edges.iter().zip(&r.edges).all(|(x, y)| (x.0, x.1) == (y.0, y.1) && oracle::eq(num(Some(x.2)), num(Some(y.2))));
            ensure!(same, "another matrix than alone");
        }
        "parse" => ensure!(a.text == r.text && a.edges == r.edges, "another document than alone: {} and {}", a.text, r.text),
        _ => {
            // a tree: each edge an edge of the instance, in both directions, as many as alone, same weight
            ensure!(oracle::eq(num(a.value), num(r.value)), "its weight is {}, alone {}", num(a.value), num(r.value));
            ensure!(a.edges.len() == r.edges.len(), "it has {} edges, alone {}", a.edges.len() / 2, r.edges.len() / 2);
            let mut dsu = oracle::Dsu::new(inst.n);
            let mut ref_dsu = oracle::Dsu::new(inst.n);
            let mut joins = (0, 0);
            for (x, y) in a.edges.iter().zip(&r.edges) {
                ensure!(x.0 < inst.n && x.1 < inst.n && num(Some(x.2)) == inst.d(x.0, x.1), "it has an edge {} - {} of cost {}", x.0, x.1, num(Some(x.2)));
                ensure!(a.edges.contains(&(x.1, x.0, x.2)), "its edge {} - {} has one direction", x.0, x.1);
                joins.0 += dsu.union(x.0, x.1) as usize;
                joins.1 += ref_dsu.union(y.0, y.1) as usize;
            }
            ensure!(joins.0 == joins.1, "it connects {} vertices, alone {}", joins.0 + 1, joins.1 + 1);
            for v in 0..inst.n {
                for w in [0, inst.n / 2] {
                    let (x, y) = (dsu.find(v) == dsu.find(w), ref_dsu.find(v) == ref_dsu.find(w));
                    ensure!(x == y, "vertices {v} and {w} are connected: {x}, alone {y}");
                }
            }
        }
    }
    Ok(())
}

fn run_history(h: &History, cx: &mut Cx) -> CheckResult {
    cx.label(if h.threads > 1 { "concurrent" } else { "successive" });
    let related = h.steps.windows(2).any(|w| w[0].inst.n == w[1].inst.n && w[0].inst.w != w[1].inst.w);
    cx.nontrivial_if((related || !h.order.is_empty()) && h.steps.len() >= 2);
    let mut refs = vec![];
    for s in &h.steps {
        refs.push(process(&History { steps: vec![s.clone()], threads: 1, rounds: 1, order: vec![] }));
    }
    let mut comparable = true;
    for (s, r) in h.steps.iter().zip(&refs) {
        if !matches!(r, Ok(r) if r[0][0].fault.is_none()) {
            // not a matter of the history
            cx.label(format!("inconclusive: {} fails alone", s.kind));
            comparable = false;
        }
    }
    if !comparable {
        return Ok(());
    }
    let refs: Vec<Answer> = refs.into_iter().map(|r| r.unwrap()[0][0].clone()).collect();
    for _ in 0..if cx.verbose && h.threads > 1 { 8 } else { 1 } {
        let got = process(h).map_err(|e| format!("each call ends well in a process of its own, but together: {e}"))?;
        for (i, (s, r)) in h.steps.iter().zip(&refs).enumerate() {
            if got[i].is_empty() && !h.order.is_empty() {
                continue;
            }
            ensure!(!got[i].is_empty(), "call {i} was not answered");
            for a in &got[i] {
                compare(s, a, r).map_err(|e| {
                    let before: Vec<String> = h.steps.iter().map(show).collect();
                    format!("call {i}, {}: {e}. Calls made by {} threads, {}:\n{}", show(s), h.threads, if h.order.is_empty() { format!("{} times", h.rounds) } else { format!("(call, times): {:?}", h.order) }, before.join("\n"))
                })?;
            }
        }
    }
    Ok(())
}

fn arguments(g: &mut Gen, kind: &str, n: usize) -> (Vec<usize>, usize) {
    match kind {
        "excluded" | "excluded_par" | "excluded_queue" => {
            let k = g.below(n);
            (g.subset(n, k), 0)
        }
        "one_tree" | "nn_start" => (vec![g.below(n)], 0),
        "matching" | "matching_par" => {
            let k = 2 * g.range(1, n / 2);
            let mut xs = g.subset(n, k);
            g.shuffle(&mut xs);
            (xs, *g.pick(&[0, 1, 10, 100]))
        }
        "measure" => (g.perm(n), 0),
        "threaded" => (vec![], g.range(1, 2 * n)),
        _ => (vec![], 0),
    }
}

fn gen_history(g: &mut Gen, large: bool, threads: usize) -> History {
    let kinds = if large { LARGE } else { SMALL };
    // some histories use few kinds, so that the same code runs again and again
    let few: Vec<&str> = match g.below(3) {
        0 => vec![*g.pick(kinds)],
        1 => vec![*g.pick(kinds), *g.pick(kinds)],
        _ => kinds.to_vec(),
    };
    let least = few.iter().map(|k| min_n(k)).max().unwrap();
    let top = if large { 60 } else { 7 };
    let n = if large && g.chance(0.03) { g.range(61, 150) } else if large { g.range(8, 40) } else { g.range(least, top) };
    let mut inst = Inst::any(g, n);
    let mut steps = vec![];
    for i in 0..g.range(2, 8) {
        if i > 0 {
            inst = match g.below(10) {
                0 => inst.clone(),
                1 => {
                    let p = g.perm(inst.n);
                    inst.relabel(&p)
                }
                2 | 3 => {
                    // another distance between two cities
                    let mut x = inst.clone();
                    x.seed = None;
                    for _ in 0..g.range(1, 3) {
                        let (e, f) = (g.below(x.w.len()), g.below(x.w.len()));
                        x.w[e] = if g.bool() { x.w[f] } else { x.w[f] * 2.0 };
                    }
                    x
                }
                4 => inst.map(|d| d * 2.0),
                5 => inst.map(|d| d * 0.5),
                6 if inst.n > least => {
                    let c = g.below(inst.n);
                    inst.without(c)
                }
                7 if inst.n < top => {
                    let m = inst.n;
                    let far = inst.max();
                    let row: Vec<f64> = (0..m).map(|_| far * g.f64()).collect();
                    Inst::from_fn(m + 1, "grown", |i, j| if j < m { inst.d(i, j) } else { row[i] })
                }
                8 => {
                    let m = g.range(least, if large { 40 } else { top });
                    Inst::any(g, m)
                }
                _ => Inst::any(g, inst.n),
            };
        }
        let kind = *g.pick(&few);
        let (xs, k) = arguments(g, kind, inst.n);
        steps.push(Step { kind: kind.into(), xs, k, parsed: g.chance(0.3), seed: g.u64() >> 12, inst: inst.clone() });
    }
    History { steps, threads, rounds: if threads > 1 { 15 } else if g.chance(0.05) { 60 } else { 2 }, order: vec![] }
}

/// calls that take microseconds
const CHEAP: &[&str] = &["prim", "prim_queue", "excluded", "excluded_queue", "one_tree", "bound", "nn", "nn_start", "matching", "metric", "broken", "measure"];

/// Two or three calls, made very often: numbers of calls and generations have an end as well.
fn gen_often(g: &mut Gen) -> History {
    let kind = if g.chance(0.7) { *g.pick(CHEAP) } else { *g.pick(SMALL) };
    let cheap = CHEAP.contains(&kind);
    let mut steps = vec![];
    for _ in 0..g.range(2, 3) {
        let n = if cheap { g.range(3, 12) } else { g.range(3, 6) };
        let (xs, k) = arguments(g, kind, n);
        steps.push(Step { kind: kind.into(), xs, k: k.min(10), parsed: false, seed: g.u64() >> 12, inst: Inst::any(g, n) });
    }
    let mut order = vec![];
    let mut budget = 70_000;
    for b in 0..g.range(3, 5) {
        let i = if b < 2 { b } else { g.below(steps.len()) };
        let t = match g.below(10) {
            0..=2 => g.range(1, 3),
            3..=5 => g.range(253, 257),
            6 => g.range(126, 129),
            7 => g.range(4, 600),
            8 if cheap && steps[i].inst.n <= 5 => g.range(65_533, 65_537),
            _ => 1,
        };
        let t = t.min(budget);
        budget -= t;
        if t > 0 {
            order.push((i, t));
        }
    }
    // the first call comes back at the end
    order.push((0, 1));
    History { steps, threads: 1, rounds: 1, order }
}

fn shrink(h: &History) -> Vec<History> {
    let mut v = vec![];
    for i in 0..h.order.len() {
        let mut o = h.order.clone();
        o.remove(i);
        if !o.is_empty() {
            v.push(History { order: o, ..h.clone() });
        }
        for times in [1, h.order[i].1 / 2, h.order[i].1 - 1] {
            if times >= 1 && times < h.order[i].1 {
                let mut o = h.order.clone();
                o[i].1 = times;
                v.push(History { order: o, ..h.clone() });
            }
        }
    }
    let with = |steps: Vec<Step>| History { steps, ..h.clone() };
    for i in 0..h.steps.len() {
        if h.steps.len() > 1 && !h.order.iter().any(|o| o.0 == h.steps.len() - 1) && (h.order.is_empty() || i == h.steps.len() - 1) {
            let mut s = h.steps.clone();
            s.remove(i);
            v.push(with(s));
        }
    }
    for threads in [1, 2] {
        if threads < h.threads {
            v.push(History { threads, ..h.clone() });
        }
    }
    for rounds in [1, 2, h.rounds / 2] {
        if h.threads == 1 && rounds < h.rounds {
            v.push(History { rounds, ..h.clone() });
        }
    }
    for i in 0..h.steps.len() {
        let s = &h.steps[i];
        if s.parsed {
            let mut t = h.steps.clone();
            t[i].parsed = false;
            v.push(with(t));
        }
        if s.xs.is_empty() {
            for inst in s.inst.shrink(min_n(&s.kind), false) {
                let mut t = h.steps.clone();
                t[i].inst = inst;
                v.push(with(t));
            }
        }
    }
    v
}

/// Runs of the command line tool in one directory.
#[derive(Clone, Serialize, Deserialize)]
struct Runs {
    calls: Vec<cli::Call>,
    /// all at once, each with a file of its own; otherwise one after the other, with the same file name
    together: bool,
    /// the files carry the same modification time
    same_time: bool,
}

/// One run on the file `name` in the directory `dir`, which is also its home.
fn run_tool(c: &cli::Call, dir: &Path, name: &str, same_time: bool) -> Result<cli::Output, String> {
    let text = cli::doc_text(&c.inst, c.style);
    let file = dir.join(name);
    std::fs::write(&file, &text).unwrap();
    if same_time {
        let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_700_000_000);
        std::fs::File::options().write(true).open(&file).unwrap().set_modified(t).unwrap();
    }
    // the file is named by its full path or relative to the working directory
    let full = file.to_str().unwrap().to_string();
    let args = c.args.iter().map(|a| if a != "FILE" { a.clone() } else if c.seed % 2 == 0 { full.clone() } else { name.into() });
    let mut cmd = Command::new(cli::program("walky"));
    cmd.args(args).current_dir(dir).env("VERIF_RAND_SEED", c.seed.to_string()).env_remove("RUST_BACKTRACE");
    for v in ["HOME", "TMPDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"] {
        cmd.env(v, dir);
    }
    if c.threads > 0 {
        cmd.env("RAYON_NUM_THREADS", c.threads.to_string());
    }
    let o = cli::run(&mut cmd)?;
    ensure!(std::fs::read_to_string(&file).is_ok_and(|t| t == text), "walky {:?} changed its input file", c.args);
    ensure!(o.code == Some(0), "walky {:?} ends with {:?}: {}", c.args, o.code, o.err);
    cli::check_output(&c.inst, &c.args, &o.out).map_err(|e| format!("walky {:?}: {e}\noutput:\n{}", c.args, o.out))?;
    Ok(o)
}

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let d = cli::temp("runs");
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn run_runs(r: &Runs, cx: &mut Cx) -> CheckResult {
    cx.label(if r.together { "together" } else { "successive" });
    cx.nontrivial_if(r.calls.windows(2).any(|w| w[0].inst.w != w[1].inst.w));
    let alone = |c: &cli::Call| run_tool(c, &Dir::new().0, "inst.xml", false);
    for c in &r.calls {
        if let Err(e) = alone(c) {
            ensure!(!e.contains("changed its input file"), "{e}");
            // not a matter of the history
            cx.label(format!("inconclusive: {} {} fails alone", c.args[0], c.args[1]));
            return Ok(());
        }
    }
    let dir = Dir::new();
    let result = |c: &cli::Call, i: usize, r: Result<cli::Output, String>, how: &str| -> CheckResult {
        r.map(|_| ()).map_err(|e| format!("run {i}, {how}, on {} cities ({}); alone it is right: {e}", c.inst.n, c.inst.kind))
    };
    if r.together {
        let out: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = r
                .calls
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    let dir = &dir;
                    s.spawn(move || run_tool(c, &dir.0, &format!("inst{i}.xml"), r.same_time))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (i, (c, o)) in r.calls.iter().zip(out).enumerate() {
            result(c, i, o, "beside the others")?;
        }
    } else {
        for (i, c) in r.calls.iter().enumerate() {
            result(c, i, run_tool(c, &dir.0, "inst.xml", r.same_time), "after the ones before")?;
        }
    }
    Ok(())
}

fn gen_runs(g: &mut Gen) -> Runs {
    let together = g.chance(0.4);
    let mut calls: Vec<cli::Call> = vec![];
    let same_command = g.bool();
    let plain = g.chance(0.7);
    for _ in 0..g.range(2, 4) {
        let i = g.u64() % 13;
        let mut c = cli::gen_call(g, i);
        if c.inst.n > 40 {
            c.inst = Inst::metric(g, 8);
            c.style = 0;
        }
        if let Some(p) = calls.last() {
            if same_command {
                c.args = p.args.clone();
                c.inst = if p.args[0] == "exact" { Inst::any(g, p.inst.n) } else { Inst::metric(g, p.inst.n) };
                match g.below(4) {
                    0 => {
                        let q = g.perm(p.inst.n);
                        c.inst = p.inst.relabel(&q);
                    }
                    1 => c.inst = p.inst.map(|d| d * 2.0),
                    _ => {}
                }
            }
        }
        if plain {
            c.style = 0;
        }
        calls.push(c);
    }
    Runs { calls, together, same_time: g.bool() }
}

fn shrink_runs(r: &Runs) -> Vec<Runs> {
    let mut v = vec![];
    for i in 0..r.calls.len() {
        if r.calls.len() > 1 {
            let mut x = r.clone();
            x.calls.remove(i);
            v.push(x);
        }
    }
    if r.together {
        v.push(Runs { together: false, ..r.clone() });
    }
    for i in 0..r.calls.len() {
        for c in cli::shrink_call(&r.calls[i]) {
            let mut x = r.clone();
            x.calls[i] = c;
            v.push(x);
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P24",
        assumptions: vec![
            "the reference is the same call in a process of its own; whether that answer is right is decided by the other properties",
            "costs are compared with relative tolerance 1e-9; which of several equally good tours or trees is returned may vary; random heuristics are checked for validity",
        ],
        subs: vec![
            Box::new(Sub::<History> {
                name: "successive",
                rule: "2..8 calls (30 kinds: exact solvers, trees, bounds, heuristics, matrices, predicates, parsing of valid and of corrupt documents) on related instances of 2..7 cities, twice over (in 5 % of the cases 60 times) in one process. Non-trivial: two calls in succession on different instances of the same size",
                quick: 7_000,
                thorough: 200_000,
                threads: 0,
                gen: |g, _| gen_history(g, false, 1),
                run: run_history,
                shrink,
            }),
            Box::new(Sub::<History> {
                name: "successive_larger",
                rule: "as successive without exact solvers, on 8..60 cities (some on 61..150)",
                quick: 3_000,
                thorough: 100_000,
                threads: 0,
                gen: |g, _| gen_history(g, true, 1),
                run: run_history,
                shrink,
            }),
            Box::new(Sub::<History> {
                name: "concurrent",
                rule: "as successive, the calls made by 2..6 threads at once, 15 times over, each thread beginning with another call; half of the matrices are shared. Non-trivial: as successive",
                quick: 1_500,
                thorough: 60_000,
                threads: 4,
                gen: |g, _| {
                    let t = g.range(2, 6);
                    gen_history(g, false, t)
                },
                run: run_history,
                shrink,
            }),
            Box::new(Sub::<History> {
                name: "concurrent_larger",
                rule: "as concurrent without exact solvers, on 8..60 cities",
                quick: 800,
                thorough: 30_000,
                threads: 4,
                gen: |g, _| {
                    let t = g.range(2, 6);
                    gen_history(g, true, t)
                },
                run: run_history,
                shrink,
            }),
            Box::new(Sub::<History> {
                name: "often",
                rule: "2..3 calls of one kind on 3..12 cities, each made up to 600 (cheap ones up to 65 537) times in succession in one process, in changing order. All cases are non-trivial",
                quick: 4_000,
                thorough: 200_000,
                threads: 0,
                gen: |g, _| gen_often(g),
                run: run_history,
                shrink,
            }),
            Box::new(Sub::<Runs> {
                name: "runs",
                rule: "2..4 runs of the command line tool in one directory, which is also its home and its place for temporary files: one after the other on changing files of the same name, or at once; each right as in a directory of its own, input files unchanged. Non-trivial: two runs in succession on different instances",
                quick: 2_500,
                thorough: 100_000,
                threads: 0,
                gen: |g, _| gen_runs(g),
                run: run_runs,
                shrink: shrink_runs,
            }),
        ],
    }]
}
