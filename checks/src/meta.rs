//! P22: relations between answers for related instances. No reference solution is needed, so
//! the instances can be larger than elsewhere.
use crate::common::*;
use engine::{ensure, oracle, CheckResult, Cx, Inst, Prop, Sub};
use serde::{Deserialize, Serialize};
use walky::computation_mode::{PAR_COMPUTATION as PAR, SEQ_COMPUTATION as SEQ};
use walky::datastructures::{AdjacencyMatrix, NAMatrix};
use walky::mst::*;
use walky::one_tree::one_tree_lower_bound;
use walky::solvers::approximate::nearest_neighbour::*;
use walky::solvers::exact;

#[derive(Clone, Serialize, Deserialize)]
struct Related {
    inst: Inst,
    /// the renumbering
    perm: Vec<usize>,
    /// scale by 2^exp
    exp: i32,
    /// added to every distance
    offset: f64,
    alg: usize,
}

fn cost(m: &NAMatrix, alg: usize) -> f64 {
    match alg {
        0 => exact::naive_solver(m).0,
        1 => exact::first_improved_solver(m).0,
        2 => exact::second_improved_solver(m).0,
        3 => exact::third_improved_solver(m).0,
        4 => exact::fourth_improved_solver(m).0,
        5 => exact::fifth_improved_solver(m).0,
        6 => exact::sixth_improved_solver(m).0,
        _ => exact::threaded_solver(m).0,
    }
}

fn run_exact(c: &Related, cx: &mut Cx) -> CheckResult {
    let who = if c.alg < 7 { format!("v{}", c.alg) } else { "threaded".into() };
    cx.label(&*who);
    let n = c.inst.n;
    cx.nontrivial_if(n >= 4 && c.inst.max() > 0.0);
    let x = cost(&na(&c.inst), c.alg);
    let y = cost(&na(&c.inst.relabel(&c.perm)), c.alg);
    ensure!(oracle::eq(x, y), "{who}: optimum {x}, after renumbering by {:?} {y}", c.perm);
    let f = 2f64.powi(c.exp);
    let z = cost(&na(&c.inst.map(|d| d * f)), c.alg);
    if c.alg < 7 {
        ensure!(z == x * f, "{who}: optimum {x}, with all distances times 2^{} {z}", c.exp);
    } else {
        // which of several optimal tours is found may depend on timing
        ensure!(oracle::eq(z, x * f), "{who}: optimum {x}, with all distances times 2^{} {z}", c.exp);
    }
    if n >= 2 {
        let o = cost(&na(&c.inst.map(|d| d + c.offset)), c.alg);
        ensure!(oracle::eq(o, x + c.offset * n as f64), "{who}: optimum {x}, with {} added to the {n} distances of a tour {o}", c.offset);
    }
    Ok(())
}

fn values(m: &NAMatrix) -> Vec<(&'static str, f64)> {
    let mut v = vec![
        ("spanning tree weight", prim::<SEQ>(m).undirected_edge_weight()),
        ("multi-threaded spanning tree weight", prim::<PAR>(m).undirected_edge_weight()),
        ("queue spanning tree weight", prim_with_excluded_node_priority_queue(m, &[]).undirected_edge_weight()),
    ];
    if m.dim() >= 2 {
        v.push(("1-tree bound", one_tree_lower_bound::<SEQ>(m)));
        v.push(("multi-threaded 1-tree bound", one_tree_lower_bound::<PAR>(m)));
    }
    v
}

fn run_bounds(c: &Related, cx: &mut Cx) -> CheckResult {
    let n = c.inst.n;
    cx.nontrivial_if(n >= 4 && c.inst.max() > 0.0);
    let m = na(&c.inst);
    let f = 2f64.powi(c.exp);
    let s = na(&c.inst.map(|d| d * f));
    let x = values(&m);
    for ((what, a), (_, b)) in x.iter().zip(values(&na(&c.inst.relabel(&c.perm)))) {
        ensure!(oracle::eq(*a, b), "{what} {a}, after renumbering by {:?} {b}", c.perm);
    }
    for ((what, a), (_, b)) in x.iter().zip(values(&s)) {
        ensure!(b == a * f, "{what} {a}, with all distances times 2^{} {b}", c.exp);
    }
    let same = |what: &str, a: f64, b: f64| -> CheckResult {
        ensure!(b == a * f, "{what} {a}, with all distances times 2^{} {b}", c.exp);
        Ok(())
    };
    same("nearest neighbour cost", nearest_neighbour::<SEQ>(&m).0, nearest_neighbour::<SEQ>(&s).0)?;
    same("multi-threaded nearest neighbour cost", nearest_neighbour::<PAR>(&m).0, nearest_neighbour::<PAR>(&s).0)?;
    for start in [0, n - 1] {
        same("nearest neighbour cost from one start", single_nearest_neighbour(&m, start).0, single_nearest_neighbour(&s, start).0)?;
    }
    same("path cost", m.evaluate_path(&c.perm), s.evaluate_path(&c.perm))?;
    same("cycle cost", m.evaluate_circle(&c.perm), s.evaluate_circle(&c.perm))?;
    Ok(())
}

fn shrink(c: &Related) -> Vec<Related> {
    let mut v = vec![];
    for (exp, offset) in [(1, c.offset), (c.exp, 1.0)] {
        if (exp, offset) != (c.exp, c.offset) {
            v.push(Related { exp, offset, ..c.clone() });
        }
    }
    let id: Vec<usize> = (0..c.inst.n).collect();
    if c.perm != id {
        v.push(Related { perm: id, ..c.clone() });
    }
    for inst in c.inst.shrink(1, false) {
        let perm = c.perm.iter().copied().filter(|&x| x < inst.n).collect();
        v.push(Related { inst, perm, ..c.clone() });
    }
    v
}

fn gen(g: &mut engine::Gen, n: usize, alg: usize) -> Related {
    let offset = match g.below(3) {
        0 => g.range(1, 10) as f64,
        1 => g.f64() * 10.0,
        _ => 1000.0,
    };
    Related { inst: Inst::any(g, n), perm: g.perm(n), exp: g.range(1, 40) as i32 - 20, offset, alg }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P22",
        assumptions: vec!["scaling stays far from overflow and underflow", "renumbering and offsets are compared with relative tolerance 1e-9; scaling exactly, except for the threaded solver"],
        subs: vec![
            Box::new(Sub::<Related> {
                name: "exact",
                rule: "random instance (31 families, n=1..8), one of 8 exact algorithms, random renumbering, power of two and offset. Non-trivial: n>=4 and not all distances zero",
                quick: 40_000,
                thorough: 1_000_000,
                threads: 0,
                gen: |g, i| {
                    let alg = (i % 8) as usize;
                    let n = size(g, 1, [6, 8, 7, 8, 8, 8, 8, 8][alg]);
                    gen(g, n, alg)
                },
                run: run_exact,
                shrink,
            }),
            Box::new(Sub::<Related> {
                name: "exact_larger",
                rule: "as exact with n=10 for v4 to v6 and the threaded solver, on four families where pruning works",
                quick: 60,
                thorough: 10_000,
                threads: 0,
                gen: |g, i| {
                    let mut c = gen(g, 10, 4 + (i % 4) as usize);
                    c.inst = Inst::new(10, *g.pick(&["euclid", "uniform", "cluster", "int_big"]), g.u64());
                    c
                },
                run: run_exact,
                shrink,
            }),
            Box::new(Sub::<Related> {
                name: "bounds",
                rule: "random instance (31 families, n=1..40), spanning trees, 1-tree bounds, nearest neighbour and path costs. Non-trivial: n>=4 and not all distances zero",
                quick: 30_000,
                thorough: 1_000_000,
                threads: 0,
                gen: |g, _| {
                    let max = if g.chance(0.8) { 12 } else { 40 };
                    let n = size(g, 1, max);
                    gen(g, n, 0)
                },
                run: run_bounds,
                shrink,
            }),
            Box::new(Sub::<Related> {
                name: "bounds_large",
                rule: "as bounds with n=41..120 (every 25th time up to 300)",
                quick: 200,
                thorough: 10_000,
                threads: 0,
                gen: |g, i| {
                    let n = if i % 25 == 12 { g.range(129, 300) } else { g.range(41, 120) };
                    gen(g, n, 0)
                },
                run: run_bounds,
                shrink,
            }),
        ],
    }]
}
