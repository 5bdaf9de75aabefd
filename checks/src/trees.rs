//! P06, P07, P08
use crate::common::*;
use crate::exact::pool;
use engine::{ensure, oracle, CheckResult, Cx, Gen, Inst, Prop, Sub};
use serde::{Deserialize, Serialize};
use walky::computation_mode::{PAR_COMPUTATION as PAR, SEQ_COMPUTATION as SEQ};
use walky::datastructures::{Graph, NAMatrix};
use walky::mst::*;
use walky::one_tree::{one_tree, one_tree_lower_bound};
use walky::solvers::approximate::{christofides::christofides, nearest_neighbour::nearest_neighbour};

#[derive(Serialize, Deserialize)]
struct Spanning {
    inst: Inst,
    excluded: Vec<usize>,
    pool: usize,
}

/// The edges of an adjacency list as (smaller, larger, cost), each checked to be present in
/// both directions with the matrix' own weight. Parallel edges are kept.
fn edges(g: &Graph, inst: &Inst, who: &str) -> Result<Vec<(usize, usize, f64)>, String> {
    ensure!(g.num_vertices() == inst.n, "{who}: {} vertices in the answer for {} cities", g.num_vertices(), inst.n);
    let mut up = vec![];
    let mut down = vec![];
    for (i, v) in g.iter().enumerate() {
        for e in v.iter() {
            ensure!(e.to < inst.n, "{who}: edge {i}->{} to a missing vertex", e.to);
            ensure!(e.to != i, "{who}: self loop at {i}");
            ensure!(e.cost == inst.d(i, e.to), "{who}: edge {i}->{} costs {}, in the graph {}", e.to, e.cost, inst.d(i, e.to));
            if i < e.to {
                up.push((i, e.to));
            } else {
                down.push((e.to, i));
            }
        }
    }
    up.sort();
    down.sort();
    ensure!(up == down, "{who}: not every edge is there in both directions: {up:?} and {down:?}");
    Ok(up.into_iter().map(|(i, j)| (i, j, inst.d(i, j))).collect())
}

fn check_tree(g: &Graph, inst: &Inst, excluded: &[usize], who: &str) -> Result<f64, String> {
    let es = edges(g, inst, who)?;
    let mut out = vec![false; inst.n];
    for &e in excluded {
        out[e] = true;
    }
    let m = out.iter().filter(|x| !**x).count();
    let mut dsu = oracle::Dsu::new(inst.n);
    for &(i, j, _) in &es {
        ensure!(!out[i] && !out[j], "{who}: edge {i}-{j} at an excluded vertex");
        ensure!(dsu.union(i, j), "{who}: edge {i}-{j} closes a cycle");
    }
    ensure!(es.len() + 1 == m, "{who}: {} edges for {m} vertices", es.len());
    Ok(es.iter().map(|e| e.2).sum())
}

fn run_spanning(c: &Spanning, cx: &mut Cx) -> CheckResult {
    let m = na(&c.inst);
    let want = oracle::kruskal(&c.inst, &c.excluded);
    let kept = c.inst.n - {
        let mut e = c.excluded.clone();
        e.sort();
        e.dedup();
        e.len()
    };
    let differing = c.inst.w.windows(2).any(|w| w[0] != w[1]);
    cx.nontrivial_if(kept >= 3 && differing);
    cx.label(if c.excluded.is_empty() { "nothing_excluded" } else { "some_excluded" });
    if c.excluded.contains(&0) {
        cx.label("first_vertex_excluded");
    }
    let par = || {
        if c.pool == 0 {
            prim_with_excluded_node_multi_threaded(&m, &c.excluded)
        } else {
            pool(c.pool).install(|| prim_with_excluded_node_multi_threaded(&m, &c.excluded))
        }
    };
    let mut answers = vec![
        ("prim_with_excluded_node_single_threaded", prim_with_excluded_node_single_threaded(&m, &c.excluded)),
        ("prim_with_excluded_node_multi_threaded", par()),
        ("prim_with_excluded_node_priority_queue", prim_with_excluded_node_priority_queue(&m, &c.excluded)),
    ];
    if c.excluded.is_empty() {
        answers.push(("prim<SEQ>", prim::<SEQ>(&m)));
        answers.push(("prim<PAR>", prim::<PAR>(&m)));
    }
    for (who, g) in &answers {
        let sum = check_tree(g, &c.inst, &c.excluded, who)?;
        ensure!(oracle::eq(sum, want), "{who}: weight {sum}, minimum is {want}");
        let said = g.undirected_edge_weight();
        ensure!(oracle::eq(said, want), "{who}: reports weight {said}, its edges weigh {sum}");
    }
    ensure!(same_matrix(&m, &c.inst), "the distances were changed");
    Ok(())
}

fn gen_excluded(g: &mut Gen, n: usize) -> Vec<usize> {
    let k = match g.below(5) {
        0 => 0,
        1 | 2 => g.range(0, 1.min(n - 1)),
        3 => g.range(0, n - 1),
        _ => {
            // a block at the beginning or at the end
            let k = g.range(0, n - 1);
            let v: Vec<usize> = if g.bool() { (0..k).collect() } else { (n - k..n).collect() };
            return v;
        }
    };
    let mut v = g.subset(n, k);
    if !v.is_empty() && g.chance(0.1) {
        let x = *g.pick(&v);
        v.push(x);
    }
    v
}

fn shrink_spanning(c: &Spanning) -> Vec<Spanning> {
    let mut v = vec![];
    for i in 0..c.excluded.len() {
        let mut e = c.excluded.clone();
        e.remove(i);
        v.push(Spanning { inst: c.inst.clone(), excluded: e, pool: c.pool });
    }
    if c.pool > 1 {
        v.push(Spanning { inst: c.inst.clone(), excluded: c.excluded.clone(), pool: 1 });
    }
    for inst in c.inst.shrink(1, false) {
        let n = inst.n;
        if n == c.inst.n {
            v.push(Spanning { inst, excluded: c.excluded.clone(), pool: c.pool });
        } else {
            // the labels move when a city goes; try the obvious maps
            let e: Vec<usize> = c.excluded.iter().copied().filter(|&x| x < n).collect();
            if e.len() < n {
                v.push(Spanning { inst: inst.clone(), excluded: e, pool: c.pool });
            }
        }
    }
    v.retain(|c| {
        let mut e = c.excluded.clone();
        e.sort();
        e.dedup();
        e.len() < c.inst.n
    });
    v
}

// ---- P07

#[derive(Serialize, Deserialize)]
struct Plain {
    inst: Inst,
}

#[derive(Serialize, Deserialize)]
struct At {
    inst: Inst,
    special: usize,
}

fn run_one_tree_at(c: &At, cx: &mut Cx) -> CheckResult {
    cx.nontrivial_if(c.inst.max() > 0.0);
    check_one_tree(&c.inst, &na(&c.inst), c.special).map(|_| ())
}
fn shrink_plain(min: usize) -> impl Fn(&Plain) -> Vec<Plain> {
    move |c| c.inst.shrink(min, false).into_iter().map(|inst| Plain { inst }).collect()
}

fn run_one_tree(c: &Plain, cx: &mut Cx) -> CheckResult {
    let n = c.inst.n;
    let m = na(&c.inst);
    let mut best = 0.0f64;
    let mut all = vec![];
    for s in 0..n {
        let want = check_one_tree(&c.inst, &m, s)?;
        all.push(want);
        best = best.max(want);
    }
    cx.nontrivial_if(n >= 4 && all.iter().any(|&w| !oracle::eq(w, best)));
    cx.label(if oracle::eq(all[0], best) { "city_0_is_best" } else { "another_city_is_best" });
    check_one_tree_bounds(&m, best)
}

/// returns the weight
fn check_one_tree(inst: &Inst, m: &NAMatrix, s: usize) -> Result<f64, String> {
        let n = inst.n;
        let want = oracle::one_tree(inst, s);
        let g = one_tree(m, s);
        let who = format!("1-tree at {s}");
        let es = edges(&g, inst, &who)?;
        ensure!(es.len() == n, "{who}: {} edges for {n} cities", es.len());
        let mut dsu = oracle::Dsu::new(n);
        let mut at = vec![];
        for &(i, j, _) in &es {
            if i == s || j == s {
                at.push(if i == s { j } else { i });
            } else {
                ensure!(dsu.union(i, j), "{who}: edge {i}-{j} closes a cycle among the other cities");
            }
        }
        ensure!(at.len() == 2 && at[0] != at[1], "{who}: the special city is connected to {at:?}");
        let mut near: Vec<f64> = (0..n).filter(|&j| j != s).map(|j| inst.d(s, j)).collect();
        near.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut mine = [inst.d(s, at[0]), inst.d(s, at[1])];
        mine.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ensure!(mine == near[..2], "{who}: the connections of the special city cost {mine:?}, the cheapest two {:?}", &near[..2]);
        let sum: f64 = es.iter().map(|e| e.2).sum();
        ensure!(oracle::eq(sum, want), "{who}: weight {sum}, should be {want}");
        ensure!(oracle::eq(g.undirected_edge_weight(), want), "{who}: reports {}, should be {want}", g.undirected_edge_weight());
        Ok(want)
}

fn check_one_tree_bounds(m: &NAMatrix, best: f64) -> CheckResult {
    let (s, p) = (one_tree_lower_bound::<SEQ>(m), one_tree_lower_bound::<PAR>(m));
    ensure!(oracle::eq(s, best), "sequential 1-tree bound {s}, the largest 1-tree weighs {best}");
    ensure!(oracle::eq(p, best), "multi-threaded 1-tree bound {p}, the largest 1-tree weighs {best}");
    Ok(())
}

fn run_one_tree_bound(c: &Plain, cx: &mut Cx) -> CheckResult {
    let all: Vec<f64> = (0..c.inst.n).map(|s| oracle::one_tree(&c.inst, s)).collect();
    let best = all.iter().copied().fold(0.0, f64::max);
    cx.nontrivial_if(all.iter().any(|&w| !oracle::eq(w, best)));
    cx.label(if oracle::eq(all[0], best) { "city_0_is_best" } else { "another_city_is_best" });
    check_one_tree_bounds(&na(&c.inst), best)
}

// ---- P08

#[derive(Serialize, Deserialize)]
struct Bounds {
    inst: Inst,
    seed: u64,
}

fn run_bounds(c: &Bounds, cx: &mut Cx) -> CheckResult {
    let inst = &c.inst;
    let n = inst.n;
    let m = na(inst);
    let bounds = [
        ("1-tree", one_tree_lower_bound::<SEQ>(&m)),
        ("multi-threaded 1-tree", one_tree_lower_bound::<PAR>(&m)),
        ("MST", prim::<SEQ>(&m).undirected_edge_weight()),
        ("multi-threaded MST", prim::<PAR>(&m).undirected_edge_weight()),
        ("MST with queue", prim_with_excluded_node_priority_queue(&m, &[]).undirected_edge_weight()),
    ];
    let mut tours = vec![];
    if n <= 11 {
        tours.push(("the optimum".to_string(), oracle::held_karp(inst)));
    } else {
        tours.push(("a good tour".into(), inst.circle(&oracle::two_opt(inst))));
    }
    tours.push(("nearest neighbour".into(), nearest_neighbour::<SEQ>(&m).0));
    tours.push(("multi-threaded nearest neighbour".into(), nearest_neighbour::<PAR>(&m).0));
    if inst.is_metric_kind() {
        rand::verif_seed(c.seed);
        tours.push(("christofides".into(), christofides::<SEQ>(&m).0));
        tours.push(("multi-threaded christofides".into(), christofides::<PAR>(&m).0));
    }
    cx.label(if n <= 11 { "against_optimum" } else { "against_good_tour" });
    cx.nontrivial_if(n >= 3 && bounds[0].1 > bounds[2].1);
    if oracle::eq(bounds[0].1, tours[0].1) {
        cx.label("tight");
    }
    for (b, x) in &bounds {
        ensure!(x.is_finite() && *x >= 0.0, "the {b} bound is {x}");
        for (t, y) in &tours {
            ensure!(oracle::le(*x, *y), "the {b} bound {x} is more than {t} with {y}");
        }
    }
    for (b, x) in &bounds[2..] {
        for (o, y) in &bounds[..2] {
            ensure!(oracle::le(*x, *y), "the {b} bound {x} is more than the {o} bound {y}");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P06",
            assumptions: vec!["weights are finite and non-negative; sums are compared with relative tolerance 1e-9"],
            subs: vec![
                Box::new(Sub::<Spanning> {
                    name: "spanning_tree",
                    rule: "random weights (31 families, n=1..40), random excluded vertices, worker pool size; structure checked edge by edge, weight against Kruskal, for all three implementations. Non-trivial: at least 3 vertices left and not all weights equal",
                    quick: 250_000,
                    thorough: 3_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let max = if g.chance(0.8) { 12 } else { 40 };
                        let n = size(g, 1, max);
                        Spanning { inst: Inst::any(g, n), excluded: gen_excluded(g, n), pool: g.range(0, 8) }
                    },
                    run: run_spanning,
                    shrink: shrink_spanning,
                }),
                Box::new(Sub::<Spanning> {
                    name: "large",
                    rule: "as spanning_tree with n=50..400 (some up to 1500, where the parallel search really splits)",
                    quick: 800,
                    thorough: 8_000,
                    threads: 4,
                    gen: |g, i| {
                        let n = if i % 40 == 3 { g.range(800, 1500) } else { g.range(50, 400) };
                        Spanning { inst: Inst::any(g, n), excluded: gen_excluded(g, n), pool: g.range(0, 8) }
                    },
                    run: run_spanning,
                    shrink: shrink_spanning,
                }),
            ],
        },
        Prop {
            id: "P07",
            assumptions: vec!["sums are compared with relative tolerance 1e-9"],
            subs: vec![
                Box::new(Sub::<Plain> {
                    name: "one_tree",
                    rule: "random instance (31 families, n=3..14), every special city; structure and weight against Kruskal plus the two cheapest connections; bound against their maximum. Non-trivial: n>=4 and the special cities give different weights",
                    quick: 200_000,
                    thorough: 1_500_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = size(g, 3, 14);
                        Plain { inst: Inst::any(g, n) }
                    },
                    run: run_one_tree,
                    shrink: |c| shrink_plain(3)(c),
                }),
                Box::new(Sub::<Plain> {
                    name: "bound_large",
                    rule: "random instance with n=15..60, bound in both modes against the largest reference 1-tree. Non-trivial: the special cities give different weights",
                    quick: 4_000,
                    thorough: 20_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(15, 60);
                        Plain { inst: Inst::any(g, n) }
                    },
                    run: run_one_tree_bound,
                    shrink: |c| shrink_plain(3)(c),
                }),
                Box::new(Sub::<Plain> {
                    name: "bound_huge",
                    rule: "as bound_large with n=61..150 (every 20th time up to 320)",
                    quick: 100,
                    thorough: 1_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 20 == 7 { g.range(151, 320) } else { g.range(61, 150) };
                        Plain { inst: Inst::any(g, n) }
                    },
                    run: run_one_tree_bound,
                    shrink: |c| shrink_plain(3)(c),
                }),
                Box::new(Sub::<Plain> {
                    name: "bound_giant",
                    rule: "as bound_large with n=400..520",
                    quick: 16,
                    thorough: 200,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(400, 520);
                        Plain { inst: Inst::any(g, n) }
                    },
                    run: run_one_tree_bound,
                    shrink: |c| shrink_plain(3)(c),
                }),
                Box::new(Sub::<At> {
                    name: "one_tree_large",
                    rule: "random instance with n=15..120 (some up to 400) and one random special city; structure and weight. Non-trivial: not all distances zero",
                    quick: 8_000,
                    thorough: 100_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 40 == 5 { g.range(121, 400) } else { g.range(15, 120) };
                        At { inst: Inst::any(g, n), special: if g.chance(0.2) { n - 1 } else { g.below(n) } }
                    },
                    run: run_one_tree_at,
                    shrink: |c| c.inst.shrink(3, false).into_iter().map(|inst| At { special: c.special.min(inst.n - 1), inst }).collect(),
                }),
            ],
        },
        Prop {
            id: "P08",
            assumptions: vec!["for more than 11 cities the comparison is with heuristic tours only, not with the optimum"],
            subs: vec![
                Box::new(Sub::<Bounds> {
                    name: "bounds",
                    rule: "random instance (31 families, n=2..9, some 10..11); every bound in every mode against the Held-Karp optimum and the program's own heuristic tours. Non-trivial: n>=3 and the 1-tree bound is above the MST bound",
                    quick: 200_000,
                    thorough: 1_500_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 40 == 7 { g.range(10, 11) } else { size(g, 2, 9) };
                        Bounds { inst: Inst::any(g, n), seed: g.u64() }
                    },
                    run: run_bounds,
                    shrink: |c| c.inst.shrink(2, false).into_iter().map(|inst| Bounds { inst, seed: c.seed }).collect(),
                }),
                Box::new(Sub::<Bounds> {
                    name: "bounds_large",
                    rule: "random instance with n=12..60 (some up to 150, every 500th time 257..420); every bound against nearest-neighbour, Christofides and 2-opt tours",
                    quick: 4_000,
                    thorough: 15_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 500 == 250 { g.range(257, 420) } else if i % 50 == 9 { g.range(61, 150) } else { g.range(12, 60) };
                        Bounds { inst: Inst::any(g, n), seed: g.u64() }
                    },
                    run: run_bounds,
                    shrink: |c| c.inst.shrink(2, false).into_iter().map(|inst| Bounds { inst, seed: c.seed }).collect(),
                }),
            ],
        },
    ]
}
