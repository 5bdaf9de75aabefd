//! P09, P10, P11, P12
use crate::common::*;
use crate::exact::pool;
use engine::{ensure, oracle, CheckResult, Cx, Gen, Inst, Prop, Sub};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Mutex;
use walky::computation_mode::{PAR_COMPUTATION as PAR, SEQ_COMPUTATION as SEQ};
use walky::datastructures::{AdjacencyMatrix, Graph, NAMatrix, Solution};
use walky::solvers::approximate::christofides::{christofides, christofides_generic};
use walky::solvers::approximate::matching::approx_min_cost_matching;
use walky::solvers::approximate::nearest_neighbour::*;

pub fn in_pool<T: Send>(k: usize, f: impl FnOnce() -> T + Send) -> T {
    if k == 0 {
        f()
    } else {
        pool(k).install(f)
    }
}

// ---- P09

#[derive(Serialize, Deserialize)]
struct Greedy {
    inst: Inst,
    k: usize,
    seed: u64,
    pool: usize,
}

pub fn check_greedy(inst: &Inst, cost: f64, t: &[usize], who: &str) -> CheckResult {
    valid_tour(inst, cost, t, who)?;
    let n = inst.n;
    let mut left = vec![true; n];
    left[t[0]] = false;
    for w in t.windows(2) {
        let near = (0..n).filter(|&j| left[j]).map(|j| inst.d(w[0], j)).fold(f64::INFINITY, f64::min);
        ensure!(inst.d(w[0], w[1]) == near, "{who}: goes from {} to {} at distance {}, but an unvisited city is at {near}: {t:?}", w[0], w[1], inst.d(w[0], w[1]));
        left[w[1]] = false;
    }
    Ok(())
}

fn run_greedy(c: &Greedy, cx: &mut Cx) -> CheckResult {
    let inst = &c.inst;
    let n = inst.n;
    let m = na(inst);
    let mut costs = vec![];
    for s in 0..n {
        let (cost, t) = single_nearest_neighbour(&m, s);
        ensure!(t.first() == Some(&s), "the tour from {s} is {t:?}");
        check_greedy(inst, cost, &t, &format!("from {s}"))?;
        costs.push(cost);
    }
    let mut sorted = costs.clone();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    cx.nontrivial_if(n >= 3 && !oracle::eq(sorted[0], sorted[n - 1]));
    cx.label(if oracle::eq(sorted[0], costs[0]) { "start_0_is_best" } else { "another_start_is_best" });
    let best = |(cost, t): Solution, who: &str| -> CheckResult {
        check_greedy(inst, cost, &t, who)?;
        ensure!(oracle::eq(cost, sorted[0]), "{who}: cost {cost}, the best start gives {}", sorted[0]);
        Ok(())
    };
    rand::verif_seed(c.seed);
    best(nearest_neighbour::<SEQ>(&m), "sequential")?;
    best(in_pool(c.pool, || nearest_neighbour::<PAR>(&m)), "multi-threaded")?;
    let worst = sorted[n - c.k];
    for (who, (cost, t)) in [
        ("sequential with some starts", n_nearest_neighbour::<SEQ>(&m, c.k)),
        ("multi-threaded with some starts", in_pool(c.pool, || n_nearest_neighbour::<PAR>(&m, c.k))),
    ] {
        check_greedy(inst, cost, &t, who)?;
        ensure!(oracle::le(cost, worst), "{who}: cost {cost} from the best of {} starts, but at most {worst} is possible; all starts: {costs:?}", c.k);
        ensure!(costs.iter().any(|&x| oracle::eq(x, cost)), "{who}: cost {cost} is that of no start: {costs:?}");
    }
    Ok(())
}

// ---- P10

#[derive(Serialize, Deserialize)]
struct Chris {
    inst: Inst,
    seed: u64,
    pool: usize,
}

/// Closed tour `t` (first city repeated at the end).
pub fn check_closed(inst: &Inst, cost: f64, t: &[usize], who: &str) -> CheckResult {
    ensure!(t.len() == inst.n + 1 && t.first() == t.last(), "{who}: {t:?} is no closed tour of {} cities", inst.n);
    ensure!(oracle::is_perm(&t[1..], inst.n), "{who}: {t:?} does not visit every city once");
    let real: f64 = t.windows(2).map(|w| inst.d(w[0], w[1])).sum();
    ensure!(oracle::eq(cost, real), "{who}: reported cost {cost}, but {t:?} has length {real}");
    Ok(())
}

fn lower(inst: &Inst) -> f64 {
    if inst.n <= 9 {
        oracle::held_karp(inst)
    } else if inst.n <= 40 {
        (0..inst.n).map(|s| oracle::one_tree(inst, s)).fold(0.0, f64::max)
    } else {
        oracle::kruskal(inst, &[])
    }
}

fn run_chris(c: &Chris, cx: &mut Cx) -> CheckResult {
    let m = na(&c.inst);
    let low = lower(&c.inst);
    cx.nontrivial_if(c.inst.n >= 4 && low > 0.0);
    cx.label(format!("n{}", match c.inst.n { 0..=3 => "1-3", 4..=9 => "4-9", 10..=40 => "10-40", _ => ">40" }));
    rand::verif_seed(c.seed);
    let s = christofides::<SEQ>(&m);
    let p = in_pool(c.pool, || {
        rand::verif_seed(c.seed);
        christofides::<PAR>(&m)
    });
    for (who, (cost, t)) in [("sequential", s), ("multi-threaded", p)] {
        check_closed(&c.inst, cost, &t, who)?;
        ensure!(oracle::le(low, cost), "{who}: cost {cost} is below the lower bound {low}");
    }
    ensure!(same_matrix(&m, &c.inst), "the distances were changed");
    Ok(())
}

fn run_giant(c: &Chris, cx: &mut Cx) -> CheckResult {
    let m = na(&c.inst);
    let low = oracle::kruskal(&c.inst, &[]);
    cx.nontrivial_if(c.inst.n >= 4 && low > 0.0);
    let s = christofides_generic::<SEQ>(&m, matching::<1>);
    let p = in_pool(c.pool, || christofides_generic::<PAR>(&m, matching::<3>));
    for (who, (cost, t)) in [("sequential", s), ("multi-threaded", p)] {
        check_closed(&c.inst, cost, &t, who)?;
        ensure!(oracle::le(low, cost), "{who}: cost {cost} is below the lower bound {low}");
    }
    Ok(())
}

// ---- P11

/// What the matching computers were given and answered, by instance and mode.
static SEEN: Mutex<Option<HashMap<u64, f64>>> = Mutex::new(None);

fn key(m: &NAMatrix, tag: u64) -> u64 {
    let mut b = vec![];
    for i in 0..m.dim() {
        for j in 0..i {
            b.extend(m.get(i, j).to_bits().to_le_bytes());
        }
    }
    engine::gen::mix(engine::gen::hash_bytes(&b) ^ tag.wrapping_mul(0x9e3779b97f4a7c15) ^ m.dim() as u64)
}

fn record(m: &NAMatrix, tag: u64, matching: &[[usize; 2]]) {
    let w: f64 = matching.iter().map(|&[i, j]| m.get(i, j)).sum();
    let k = key(m, tag);
    let mut s = SEEN.lock().unwrap();
    let e = s.get_or_insert_with(HashMap::new).entry(k).or_insert(w);
    *e = e.max(w);
}

fn odd(mst: &Graph) -> Vec<usize> {
    (0..mst.num_vertices()).filter(|&i| mst[i].iter().count() % 2 == 1).collect()
}

/// a pure function of its arguments: a random perfect matching, or an optimal one
fn matching<const TAG: u64>(mst: &Graph, m: &NAMatrix) -> Vec<[usize; 2]> {
    let vs = odd(mst);
    let mut g = Gen::new(key(m, TAG));
    let r = if TAG % 2 == 0 && vs.len() <= 14 {
        oracle::min_matching(&|i, j| m.get(i, j), &vs).1
    } else {
        let mut vs = vs;
        g.shuffle(&mut vs);
        vs.chunks(2).map(|c| [c[0], c[1]]).collect()
    };
    record(m, TAG, &r);
    r
}

fn run_ratio(c: &Chris, cx: &mut Cx) -> CheckResult {
    let inst = &c.inst;
    let m = na(inst);
    let tree = oracle::kruskal(inst, &[]);
    let opt = if inst.n <= 10 { Some(oracle::held_karp(inst)) } else { None };
    let runs = [
        ("sequential, optimal matching", 0u64, christofides_generic::<SEQ>(&m, matching::<0>)),
        ("sequential, random matching", 1, christofides_generic::<SEQ>(&m, matching::<1>)),
        ("multi-threaded, optimal matching", 2, in_pool(c.pool, || christofides_generic::<PAR>(&m, matching::<2>))),
        ("multi-threaded, random matching", 3, in_pool(c.pool, || christofides_generic::<PAR>(&m, matching::<3>))),
    ];
    cx.nontrivial_if(inst.n >= 4 && tree > 0.0);
    cx.label(if opt.is_some() { "against_optimum" } else { "against_tree_and_matching" });
    for (who, tag, (cost, t)) in runs {
        check_closed(inst, cost, &t, who)?;
        let w = {
            let s = SEEN.lock().unwrap();
            s.as_ref().and_then(|s| s.get(&key(&m, tag)).copied())
        };
        let Some(w) = w else { return Err(format!("{who}: the matching computer was not called for this instance")) };
        ensure!(oracle::le(cost, tree + w), "{who}: cost {cost}, but tree {tree} plus matching {w} is {}", tree + w);
        if let (Some(o), 0) = (opt, tag % 2) {
            ensure!(oracle::le(cost, 1.5 * o), "{who}: cost {cost}, more than 1.5 times the optimum {o}");
        }
        if oracle::eq(cost, tree + w) {
            cx.label("bound_attained");
        }
    }
    Ok(())
}

// ---- P12

#[derive(Serialize, Deserialize)]
struct Match {
    inst: Inst,
    vertices: Vec<usize>,
    tries: usize,
    seed: u64,
    pool: usize,
}

fn covers(vs: &[usize], pairs: &[[usize; 2]]) -> bool {
    let mut a: Vec<usize> = vs.to_vec();
    let mut b: Vec<usize> = pairs.iter().flatten().copied().collect();
    a.sort();
    b.sort();
    a == b
}

fn run_match(c: &Match, cx: &mut Cx) -> CheckResult {
    let inst = &c.inst;
    let m = na(inst);
    let d = |i: usize, j: usize| inst.d(i, j);
    cx.nontrivial_if(c.vertices.len() >= 4 && c.tries >= 1);
    cx.label(match c.vertices.len() { 0 => "empty", 2 => "one_pair", 4 => "two_pairs", _ => "more_pairs" });
    rand::verif_seed(c.seed);
    let s = approx_min_cost_matching::<SEQ>(&m, c.vertices.clone(), c.tries);
    let p = in_pool(c.pool, || {
        rand::verif_seed(c.seed);
        approx_min_cost_matching::<PAR>(&m, c.vertices.clone(), c.tries)
    });
    for (who, r) in [("sequential", s), ("multi-threaded", p)] {
        ensure!(covers(&c.vertices, &r), "{who}: {r:?} is no perfect matching of {:?}", c.vertices);
        let w: f64 = r.iter().map(|&[i, j]| d(i, j)).sum();
        if c.vertices.len() == 4 && c.tries >= 1 {
            let best = oracle::min_matching(&d, &c.vertices).0;
            ensure!(oracle::le(w, best), "{who}: {r:?} costs {w}, the best matching of {:?} costs {best}", c.vertices);
        }
        if c.tries >= 2000 && r.len() >= 2 {
            cx.label("local_optimum_checked");
            for a in 0..r.len() {
                for b in 0..a {
                    let ([x, y], [u, v]) = (r[a], r[b]);
                    let now = d(x, y) + d(u, v);
                    let other = (d(x, u) + d(y, v)).min(d(x, v) + d(y, u));
                    ensure!(
                        oracle::le(now, other),
                        "{who}: after {} rounds the pairs {:?} and {:?} cost {now} but can be matched for {other}",
                        c.tries, r[a], r[b]
                    );
                }
            }
        }
    }
    ensure!(same_matrix(&m, inst), "the distances were changed");
    Ok(())
}

fn gen_match(g: &mut Gen, n: usize, tries: usize) -> Match {
    let k = match g.below(4) {
        0 if n >= 4 => 4,
        1 => n / 2 * 2,
        _ => 2 * g.range(0, n / 2),
    };
    Match { inst: Inst::any(g, n), vertices: g.subset(n, k), tries, seed: g.u64(), pool: g.range(0, 8) }
}

fn shrink_match(c: &Match) -> Vec<Match> {
    let mk = |inst: &Inst, vertices: Vec<usize>, tries, seed, pool| Match { inst: inst.clone(), vertices, tries, seed, pool };
    let mut v = vec![];
    if c.tries > 1 && c.tries < 2000 {
        v.push(mk(&c.inst, c.vertices.clone(), 1, c.seed, c.pool));
        v.push(mk(&c.inst, c.vertices.clone(), c.tries / 2, c.seed, c.pool));
    }
    for i in (0..c.vertices.len()).step_by(2) {
        let mut vs = c.vertices.clone();
        vs.drain(i..i + 2);
        v.push(mk(&c.inst, vs, c.tries, c.seed, c.pool));
    }
    // drop cities that take no part
    if c.inst.n > c.vertices.len() && c.inst.n > 1 {
        if let Some(x) = (0..c.inst.n).rev().find(|x| !c.vertices.contains(x)) {
            let vs = c.vertices.iter().map(|&y| if y > x { y - 1 } else { y }).collect();
            v.push(mk(&c.inst.without(x), vs, c.tries, c.seed, c.pool));
        }
    }
    for seed in 0..3 {
        if seed < c.seed {
            v.push(mk(&c.inst, c.vertices.clone(), c.tries, seed, c.pool));
        }
    }
    for inst in c.inst.shrink(c.inst.n, false) {
        v.push(mk(&inst, c.vertices.clone(), c.tries, c.seed, c.pool));
    }
    v
}

#[derive(Serialize, Deserialize)]
struct BigMatch {
    n: usize,
    tries: usize,
    seed: u64,
    pool: usize,
}

fn run_big_match(c: &BigMatch, cx: &mut Cx) -> CheckResult {
    // cities on a line: cheap to generate, and the best matching pairs neighbours
    let mut g = Gen::new(c.seed);
    let x: Vec<f64> = (0..c.n).map(|_| g.below(1_000_000) as f64).collect();
    let m = NAMatrix(nalgebra_matrix(c.n, &x));
    let mut vs = g.perm(c.n);
    vs.truncate(c.n / 2 * 2);
    cx.nontrivial_if(vs.len() >= 8000);
    let before: f64 = {
        rand::verif_seed(c.seed);
        let r = approx_min_cost_matching::<SEQ>(&m, vs.clone(), 0);
        ensure!(covers(&vs, &r), "sequential: no perfect matching of {} vertices without rounds", vs.len());
        r.iter().map(|&[i, j]| (x[i] - x[j]).abs()).sum()
    };
    let p = in_pool(c.pool, || {
        rand::verif_seed(c.seed);
        approx_min_cost_matching::<PAR>(&m, vs.clone(), c.tries)
    });
    ensure!(covers(&vs, &p), "multi-threaded: no perfect matching of {} vertices after {} rounds", vs.len(), c.tries);
    let after: f64 = p.iter().map(|&[i, j]| (x[i] - x[j]).abs()).sum();
    // one round on random pairs of pairs gains about a quarter; no gain at all means no improvement took place
    ensure!(c.tries == 0 || after < before, "multi-threaded: {} rounds changed the cost from {before} to {after}", c.tries);
    Ok(())
}

fn nalgebra_matrix(n: usize, x: &[f64]) -> nalgebra::DMatrix<f64> {
    nalgebra::DMatrix::from_fn(n, n, |i, j| (x[i] - x[j]).abs())
}

pub fn props() -> Vec<Prop> {
    let shrink_chris: fn(&Chris) -> Vec<Chris> = |c| {
        let mut v = vec![];
        if c.pool > 1 {
            v.push(Chris { inst: c.inst.clone(), seed: c.seed, pool: 1 });
        }
        v.extend(c.inst.shrink(1, true).into_iter().map(|inst| Chris { inst, seed: c.seed, pool: c.pool }));
        v
    };
    vec![
        Prop {
            id: "P09",
            assumptions: vec!["a tie between nearest cities may be broken either way", "costs are compared with relative tolerance 1e-9"],
            subs: vec![
                Box::new(Sub::<Greedy> {
                    name: "greedy",
                    rule: "random instance (31 families, n=1..12), every start, both modes, a random number of starts. Non-trivial: n>=3 and the starts give different costs",
                    quick: 500_000,
                    thorough: 3_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = size(g, 1, 12);
                        Greedy { inst: Inst::any(g, n), k: g.range(1, n), seed: g.u64(), pool: g.range(0, 8) }
                    },
                    run: run_greedy,
                    shrink: shrink_greedy,
                }),
                Box::new(Sub::<Greedy> {
                    name: "greedy_large",
                    rule: "as greedy with n=13..70",
                    quick: 15_000,
                    thorough: 100_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(13, 70);
                        Greedy { inst: Inst::any(g, n), k: g.range(1, n), seed: g.u64(), pool: g.range(0, 8) }
                    },
                    run: run_greedy,
                    shrink: shrink_greedy,
                }),
                Box::new(Sub::<Greedy> {
                    name: "greedy_huge",
                    rule: "as greedy with n=71..300 (every 50th time up to 1100)",
                    quick: 150,
                    thorough: 3_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 50 == 7 { giant(g, 301) } else { g.range(71, 300) };
                        Greedy { inst: Inst::any(g, n), k: g.range(1, n), seed: g.u64(), pool: g.range(0, 8) }
                    },
                    run: run_greedy,
                    shrink: shrink_greedy,
                }),
            ],
        },
        Prop {
            id: "P10",
            assumptions: vec!["the random numbers come from rand::thread_rng, which the harness seeds per case"],
            subs: vec![
                Box::new(Sub::<Chris> {
                    name: "christofides",
                    rule: "random metric instance (14 families, n=1..20), random seed, both modes; tour, cost, and a lower bound (Held-Karp for n<=9, otherwise 1-tree or tree). Non-trivial: n>=4 and a positive lower bound",
                    quick: 400_000,
                    thorough: 2_500_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = size(g, 1, 20);
                        Chris { inst: Inst::metric(g, n), seed: g.u64(), pool: g.range(0, 8) }
                    },
                    run: run_chris,
                    shrink: shrink_chris,
                }),
                Box::new(Sub::<Chris> {
                    name: "christofides_large",
                    rule: "as christofides with n=21..90",
                    quick: 6_000,
                    thorough: 20_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(21, 90);
                        Chris { inst: Inst::metric(g, n), seed: g.u64(), pool: g.range(0, 8) }
                    },
                    run: run_chris,
                    shrink: shrink_chris,
                }),
                Box::new(Sub::<Chris> {
                    name: "christofides_giant",
                    rule: "christofides_generic with a random perfect matching, n=1025..1100, every 8th time 2049..2100; tour, cost and the spanning tree as lower bound. Non-trivial: n>=4 and a positive lower bound",
                    quick: 8,
                    thorough: 80,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 8 == 7 { g.range(2049, 2100) } else { g.range(1025, 1100) };
                        Chris { inst: Inst::metric(g, n), seed: 0, pool: g.range(0, 8) }
                    },
                    run: run_giant,
                    shrink: shrink_chris,
                }),
                Box::new(Sub::<Chris> {
                    name: "christofides_huge",
                    rule: "as christofides with n=91..300 (every 20th time up to 1100)",
                    quick: 120,
                    thorough: 2_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 20 == 7 { giant(g, 301) } else { g.range(91, 300) };
                        Chris { inst: Inst::metric(g, n), seed: g.u64(), pool: g.range(0, 8) }
                    },
                    run: run_chris,
                    shrink: shrink_chris,
                }),
            ],
        },
        Prop {
            id: "P11",
            assumptions: vec!["the reference matching is optimal up to 14 odd vertices; with more, a random one is used, for which only the tree plus matching bound is claimed"],
            subs: vec![Box::new(Sub::<Chris> {
                name: "ratio",
                rule: "random metric instance (14 families, n=1..10, a tenth up to 24), christofides_generic in both modes with an optimal and with a random perfect matching of the odd vertices; against 1.5 times Held-Karp and against tree plus matching. Non-trivial: n>=4 and a tree of positive weight",
                quick: 400_000,
                thorough: 2_500_000,
                threads: 0,
                gen: |g, i| {
                    let n = if i % 10 == 3 { g.range(11, 24) } else { size(g, 1, 10) };
                    Chris { inst: Inst::metric(g, n), seed: 0, pool: g.range(0, 8) }
                },
                run: run_ratio,
                shrink: shrink_chris,
            }),
            Box::new(Sub::<Chris> {
                name: "ratio_large",
                rule: "as ratio with n=25..200 (every 100th time up to 1100), random perfect matchings (optimal ones up to 14 odd vertices), against tree plus matching",
                quick: 2_000,
                thorough: 20_000,
                threads: 0,
                gen: |g, i| {
                    let n = if i % 100 == 7 { giant(g, 201) } else if g.chance(0.9) { g.range(25, 80) } else { g.range(81, 200) };
                    Chris { inst: Inst::metric(g, n), seed: 0, pool: g.range(0, 8) }
                },
                run: run_ratio,
                shrink: shrink_chris,
            })],
        },
        Prop {
            id: "P12",
            assumptions: vec!["enough rounds for a local optimum is taken as 3000 for at most 8 pairs (the chance of a false alarm is below 1e-100 per case)"],
            subs: vec![
                Box::new(Sub::<Match> {
                    name: "matching",
                    rule: "random matrix (31 families, n=1..24), random even vertex set, 0..20 rounds, random seed, both modes. Non-trivial: at least 2 pairs and one round",
                    quick: 1_000_000,
                    thorough: 6_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = size(g, 1, 24);
                        let tries = if g.chance(0.5) { g.range(0, 2) } else { g.range(0, 20) };
                        gen_match(g, n, tries)
                    },
                    run: run_match,
                    shrink: shrink_match,
                }),
                Box::new(Sub::<Match> {
                    name: "local_optimum",
                    rule: "as matching with n=4..16 and 3000 rounds; no two pairs can be re-paired cheaper",
                    quick: 20_000,
                    thorough: 20_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(4, 16);
                        gen_match(g, n, 3000)
                    },
                    run: run_match,
                    shrink: shrink_match,
                }),
                Box::new(Sub::<Match> {
                    name: "local_optimum_large",
                    rule: "as local_optimum with n=17..120 and 100 rounds per city",
                    quick: 5_000,
                    thorough: 20_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(17, 120);
                        gen_match(g, n, (100 * n).max(3000))
                    },
                    run: run_match,
                    shrink: shrink_match,
                }),
                Box::new(Sub::<Match> {
                    name: "matching_large",
                    rule: "as matching with n=50..400 and 0..5 rounds",
                    quick: 3_000,
                    thorough: 20_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(50, 400);
                        let tries = g.range(0, 5);
                        gen_match(g, n, tries)
                    },
                    run: run_match,
                    shrink: shrink_match,
                }),
                Box::new(Sub::<BigMatch> {
                    name: "matching_split",
                    rule: "8000..8400 cities on a line, so that the multi-threaded rounds are split over threads. Non-trivial: at least 8000 vertices",
                    quick: 1,
                    thorough: 40,
                    threads: 1,
                    gen: |g, _| BigMatch { n: g.range(8000, 8400), tries: g.range(1, 3), seed: g.u64(), pool: g.range(2, 8) },
                    run: run_big_match,
                    shrink: |c| {
                        let mut v = vec![];
                        for n in [c.n / 2, c.n - 100, c.n - 1] {
                            if n >= 4 && n < c.n {
                                v.push(BigMatch { n, tries: c.tries, seed: c.seed, pool: c.pool });
                            }
                        }
                        v
                    },
                }),
            ],
        },
    ]
}

fn shrink_greedy(c: &Greedy) -> Vec<Greedy> {
    let mut v = vec![];
    if c.pool > 1 {
        v.push(Greedy { inst: c.inst.clone(), k: c.k, seed: c.seed, pool: 1 });
    }
    if c.k < c.inst.n {
        v.push(Greedy { inst: c.inst.clone(), k: c.k + 1, seed: c.seed, pool: c.pool });
    }
    for inst in c.inst.shrink(1, false) {
        let k = c.k.min(inst.n);
        v.push(Greedy { inst, k, seed: c.seed, pool: c.pool });
    }
    v
}
