//! P01, P02, P17, P22(part)
use crate::affinity::with_processors;
use crate::common::*;
use crate::miri::{self, Interpreted};
use engine::{ensure, oracle, CheckResult, Cx, Gen, Inst, Prop, Sub};
use serde::{Deserialize, Serialize};
use walky::datastructures::Solution;
use walky::solvers::exact;

#[derive(Serialize, Deserialize)]
struct Solve {
    inst: Inst,
    alg: usize,
    vec_matrix: bool,
}

fn solve(c: &Solve) -> Solution {
    if c.vec_matrix && c.alg <= 4 {
        let m = vm(&c.inst);
        match c.alg {
            0 => exact::naive_solver(&m),
            1 => exact::first_improved_solver(&m),
            2 => exact::second_improved_solver(&m),
            3 => exact::third_improved_solver(&m),
            _ => exact::fourth_improved_solver(&m),
        }
    } else {
        let m = na(&c.inst);
        match c.alg {
            0 => exact::naive_solver(&m),
            1 => exact::first_improved_solver(&m),
            2 => exact::second_improved_solver(&m),
            3 => exact::third_improved_solver(&m),
            4 => exact::fourth_improved_solver(&m),
            5 => exact::fifth_improved_solver(&m),
            _ => exact::sixth_improved_solver(&m),
        }
    }
}

pub fn check_optimal(inst: &Inst, (cost, tour): &Solution, who: &str) -> CheckResult {
    valid_tour(inst, *cost, tour, who)?;
    let opt = oracle::held_karp(inst);
    ensure!(oracle::le(*cost, opt), "{who}: reported {cost} with {tour:?}, but the optimum is {opt}");
    Ok(())
}

/// Is there something to find: the first enumerated tour is not optimal?
pub fn identity_not_optimal(inst: &Inst) -> bool {
    let id: Vec<usize> = (0..inst.n).collect();
    inst.n >= 4 && !oracle::le(inst.circle(&id), oracle::held_karp(inst))
}

fn run_solve(c: &Solve, cx: &mut Cx) -> CheckResult {
    cx.label(format!("v{}", c.alg));
    cx.label(if c.inst.is_metric_kind() { "metric" } else { "free" });
    cx.nontrivial_if(identity_not_optimal(&c.inst));
    let s = solve(c);
    check_optimal(&c.inst, &s, &format!("v{}{}", c.alg, if c.vec_matrix { " on VecMatrix" } else { "" }))
}

fn shrink_solve(c: &Solve) -> Vec<Solve> {
    let mut v = vec![];
    if c.vec_matrix {
        v.push(Solve { inst: c.inst.clone(), alg: c.alg, vec_matrix: false });
    }
    v.extend(c.inst.shrink(1, false).into_iter().map(|inst| Solve { inst, alg: c.alg, vec_matrix: c.vec_matrix }));
    v
}

/// A few roads between many cities: the ring 0-1-...-n-1-0 and some extra roads. Cities without a road
/// between them are `missing` apart, which is more than the whole ring, so that an optimal tour uses
/// only roads. This makes the search space small for the algorithms that prune, whatever n is.
#[derive(Serialize, Deserialize)]
struct Roads {
    alg: usize,
    ring: Vec<f64>,
    extra: Vec<(usize, usize, f64)>,
    missing: f64,
}

impl Roads {
    fn random(g: &mut engine::Gen, alg: usize, n: usize, shortcuts: usize) -> Roads {
        let grid = *g.pick(&[1.0, 1.0, 0.5, 1e-3]);
        let ring: Vec<f64> = (0..n).map(|_| g.range(2, 30) as f64 * grid).collect();
        let mut extra = vec![];
        for _ in 0..shortcuts {
            let i = g.below(n);
            let j = (i + g.range(2, n - 2)) % n;
            let (i1, j1) = ((i + 1) % n, (j + 1) % n);
            // the ring with the part between i and j reversed
            let save = ring[i] + ring[j];
            let a = g.f64() * save;
            let b = (save - a) * (0.7 + 0.5 * g.f64());
            extra.push((i, j, (a / grid).round() * grid));
            extra.push((i1, j1, (b / grid).round() * grid));
        }
        let total: f64 = ring.iter().sum();
        let missing = total * *g.pick(&[1.5, 10.0, 1e6]);
        Roads { alg, ring, extra, missing }
    }
    fn inst(&self) -> Inst {
        let n = self.ring.len();
        let mut inst = Inst::from_fn(n, "roads", |_, _| self.missing);
        for (i, &x) in self.ring.iter().enumerate() {
            inst.w[Inst::index(n, i, (i + 1) % n)] = x;
        }
        for &(i, j, x) in &self.extra {
            if i != j {
                let w = &mut inst.w[Inst::index(n, i, j)];
                *w = w.min(x);
            }
        }
        inst
    }
    /// the cheapest tour along the roads, by trying all of them
    fn optimum(&self, inst: &Inst) -> f64 {
        fn go(at: usize, left: usize, cost: f64, inst: &Inst, roads: &[Vec<usize>], used: &mut [bool], best: &mut f64) {
            if left == 0 {
                if roads[at].contains(&0) {
                    *best = best.min(cost + inst.d(at, 0));
                }
                return;
            }
            for &to in &roads[at] {
                if !used[to] {
                    used[to] = true;
                    go(to, left - 1, cost + inst.d(at, to), inst, roads, used, best);
                    used[to] = false;
                }
            }
        }
        let n = inst.n;
        let roads: Vec<Vec<usize>> =
            (0..n).map(|i| (0..n).filter(|&j| j != i && inst.d(i, j) < self.missing).collect()).collect();
        let mut used = vec![false; n];
        used[0] = true;
        let mut best = f64::INFINITY;
        go(0, n - 1, 0.0, inst, &roads, &mut used, &mut best);
        best
    }
}

fn check_roads(c: &Roads, cx: &mut Cx, who: &str, solve: impl FnOnce(&Inst) -> Solution) -> CheckResult {
    let inst = c.inst();
    let best = c.optimum(&inst);
    let id: Vec<usize> = (0..inst.n).collect();
    cx.nontrivial_if(!oracle::le(inst.circle(&id), best));
    let s = solve(&inst);
    valid_tour(&inst, s.0, &s.1, who)?;
    ensure!(oracle::le(s.0, best), "{who}: reported {} with {:?}, but there is a tour of length {best}", s.0, s.1);
    Ok(())
}

fn run_roads(c: &Roads, cx: &mut Cx) -> CheckResult {
    let who = format!("v{}", c.alg);
    cx.label(who.clone());
    check_roads(c, cx, &who, |inst| solve(&Solve { inst: inst.clone(), alg: c.alg, vec_matrix: false }))
}

#[derive(Serialize, Deserialize)]
struct RoadsThreaded {
    roads: Roads,
    processors: usize,
    pool: usize,
}

fn shrink_roads(c: &Roads) -> Vec<Roads> {
    let n = c.ring.len();
    let with = |ring: &[f64], extra: Vec<(usize, usize, f64)>| Roads { alg: c.alg, ring: ring.to_vec(), extra, missing: c.missing };
    let mut v = vec![];
    for m in [n / 2, 3 * n / 4, n - 4, n - 1] {
        if m >= 4 && m < n {
            v.push(with(&c.ring[..m], c.extra.iter().copied().filter(|e| e.0 < m && e.1 < m).collect()));
            let d = n - m;
            v.push(with(&c.ring[d..], c.extra.iter().filter(|e| e.0 >= d && e.1 >= d).map(|e| (e.0 - d, e.1 - d, e.2)).collect()));
        }
    }
    for i in 0..c.extra.len() {
        let mut e = c.extra.clone();
        e.remove(i);
        v.push(with(&c.ring, e));
    }
    v
}

#[derive(Serialize, Deserialize)]
struct Threaded {
    inst: Inst,
    processors: usize,
    pool: usize,
}

pub fn pool(k: usize) -> &'static rayon::ThreadPool {
    use std::sync::OnceLock;
    static POOLS: [OnceLock<rayon::ThreadPool>; 9] = [const { OnceLock::new() }; 9];
    POOLS[k].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap())
}

fn run_threaded(c: &Threaded, cx: &mut Cx) -> CheckResult {
    let m = na(&c.inst);
    let seen = with_processors(c.processors, || std::thread::available_parallelism().map(|n| n.get()).unwrap_or(0));
    cx.label(format!("processors_{}", if seen < c.inst.n { "below_n" } else { "from_n" }));
    cx.nontrivial_if(seen < c.inst.n && identity_not_optimal(&c.inst));
    let s = if c.pool == 0 {
        with_processors(c.processors, || exact::threaded_solver(&m))
    } else {
        pool(c.pool).install(|| with_processors(c.processors, || exact::threaded_solver(&m)))
    };
    check_optimal(&c.inst, &s, &format!("threaded solver with {seen} processors"))?;
    ensure!(same_matrix(&m, &c.inst), "the distances were changed");
    Ok(())
}

fn shrink_threaded(c: &Threaded) -> Vec<Threaded> {
    let mut v = vec![];
    let with = |inst: &Inst, processors, pool| Threaded { inst: inst.clone(), processors, pool };
    if c.pool != 1 {
        v.push(with(&c.inst, c.processors, 1));
    }
    for k in [1, 2, c.processors / 2, c.processors - 1] {
        if k > 0 && k < c.processors {
            v.push(with(&c.inst, k, c.pool));
        }
    }
    v.extend(c.inst.shrink(1, false).iter().map(|i| with(i, c.processors, c.pool)));
    v
}

#[derive(Serialize, Deserialize)]
struct Scheduled {
    inst: Inst,
    processors: usize,
    workers: usize,
    seed: u64,
    holds: u32,
    span: f64,
    /// hold workers where they store a tour
    #[serde(default)]
    tours: bool,
}

/// Renumbers the cities (at least 6) so that in an optimal tour some city i lies between two smaller
/// ones and city i+1 between two larger ones: then a worker may never meet that tour itself, neither
/// at the end of the prefixes that start with i nor at the beginning of those that start with i+1.
fn apart(g: &mut engine::Gen, inst: &Inst) -> Inst {
    let n = inst.n;
    let i = g.range(2, n - 4);
    let mut low: Vec<usize> = (0..i).collect();
    let mut high: Vec<usize> = (i + 2..n).collect();
    g.shuffle(&mut low);
    g.shuffle(&mut high);
    let mut blocks = vec![vec![low.pop().unwrap(), i, low.pop().unwrap()], vec![high.pop().unwrap(), i + 1, high.pop().unwrap()]];
    blocks.extend(low.into_iter().chain(high).map(|c| vec![c]));
    g.shuffle(&mut blocks);
    let place: Vec<usize> = blocks.concat();
    let tour = oracle::held_karp_tour(inst);
    let mut p = vec![0; n];
    for k in 0..n {
        p[place[k]] = tour[k];
    }
    inst.relabel(&p)
}

fn run_scheduled(c: &Scheduled, cx: &mut Cx) -> CheckResult {
    let m = na(&c.inst);
    cx.label(format!("workers_{}", c.workers));
    cx.nontrivial_if(c.processors < c.inst.n && identity_not_optimal(&c.inst));
    // a schedule depends on the operating system as well: a recorded case is tried more often
    for _ in 0..if cx.verbose { 200 } else { 1 } {
        let s = crate::sched::with_schedule(c.workers, c.seed, c.holds, c.span, if c.tours { 8 * c.inst.n } else { 0 }, || {
            with_processors(c.processors, || exact::threaded_solver(&m))
        });
        check_optimal(&c.inst, &s, &format!("threaded solver, {} workers under schedule {}", c.workers, c.seed))?;
    }
    Ok(())
}

// ---- P17

#[derive(Serialize, Deserialize)]
struct Multiset {
    items: Vec<u8>,
}

fn reference_permutations(sorted: &[u8]) -> Vec<Vec<u8>> {
    // all distinct arrangements in lexicographic order, by choosing the first element
    fn rec(left: &mut Vec<(u8, usize)>, cur: &mut Vec<u8>, n: usize, out: &mut Vec<Vec<u8>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i].1 > 0 {
                left[i].1 -= 1;
                cur.push(left[i].0);
                rec(left, cur, n, out);
                cur.pop();
                left[i].1 += 1;
            }
        }
    }
    let mut left: Vec<(u8, usize)> = vec![];
    for &x in sorted {
        match left.last_mut() {
            Some((y, k)) if *y == x => *k += 1,
            _ => left.push((x, 1)),
        }
    }
    let mut out = vec![];
    rec(&mut left, &mut vec![], sorted.len(), &mut out);
    out
}

fn run_permutations(c: &Multiset, cx: &mut Cx) -> CheckResult {
    let mut cur = c.items.clone();
    cur.sort();
    let want = reference_permutations(&cur);
    cx.nontrivial_if(want.len() >= 3);
    let mut dup = cur.clone();
    dup.dedup();
    cx.label(if dup.len() < cur.len() { "with_equal_items" } else { "distinct_items" });
    let mut got = 1;
    ensure!(want[0] == cur, "harness");
    while exact::next_permutation(&mut cur) {
        ensure!(got < want.len(), "more than {} arrangements of {:?}: also {cur:?}", want.len(), c.items);
        ensure!(want[got] == cur, "arrangement {got} of {:?} is {cur:?}, expected {:?}", c.items, want[got]);
        got += 1;
    }
    ensure!(got == want.len(), "stopped after {got} of {} arrangements of {:?}", want.len(), c.items);
    Ok(())
}

#[derive(Serialize, Deserialize)]
struct Steps {
    items: Vec<i64>,
    steps: usize,
}

/// The next arrangement in lexicographic order, by trying to keep as much of the front as possible.
fn successor(a: &[i64]) -> Option<Vec<i64>> {
    for keep in (0..a.len()).rev() {
        let mut rest = a[keep..].to_vec();
        rest.sort();
        if let Some(k) = rest.iter().position(|&x| x > a[keep]) {
            let mut next = a[..keep].to_vec();
            next.push(rest.remove(k));
            next.extend(rest);
            return Some(next);
        }
    }
    None
}

fn run_steps(c: &Steps, cx: &mut Cx) -> CheckResult {
    let mut cur = c.items.clone();
    let mut ended = false;
    let mut longest = 0;
    for _ in 0..c.steps {
        let before = cur.clone();
        let more = exact::next_permutation(&mut cur);
        match successor(&before) {
            Some(next) => {
                ensure!(more, "the arrangement {before:?} is taken for the last one, but {next:?} follows");
                ensure!(cur == next, "{before:?} is followed by {cur:?}, expected {next:?}");
                longest = longest.max((0..before.len()).find(|&i| before[i] != next[i]).map_or(0, |i| before.len() - i));
            }
            None => {
                ensure!(!more, "{before:?} is the last arrangement, but it is followed by {cur:?}");
                ended = true;
                break;
            }
        }
    }
    cx.nontrivial_if(longest >= 4);
    cx.label(if ended { "reached_the_end" } else { "more_to_come" });
    cx.label(match longest { 0..=3 => "changes<=3_items", 4..=9 => "changes<=9_items", _ => "changes>=10_items" });
    Ok(())
}

fn gen_steps(g: &mut Gen, n: usize) -> Steps {
    let spread = *g.pick(&[2, 3, n.max(2), 1 << 30]);
    let low = if g.bool() { 0 } else { i64::MIN / 2 };
    let mut items: Vec<i64> = (0..n).map(|_| low + g.below(spread) as i64).collect();
    // a long descending end is rare by chance
    let k = if g.chance(0.1) { 0 } else { g.range(0, n) };
    items[k..].sort_by(|a, b| b.cmp(a));
    Steps { items, steps: g.range(1, 12) }
}

#[derive(Serialize, Deserialize)]
struct Counter {
    start: Vec<usize>,
    basis: usize,
    steps: usize,
}

fn number(digits: &[usize], basis: usize) -> u128 {
    digits.iter().fold(0, |a, &d| a * basis as u128 + d as u128)
}

fn run_counter(c: &Counter, cx: &mut Cx) -> CheckResult {
    let mut cur = c.start.clone();
    let k = c.start.len();
    let top = (c.basis as u128).pow(k as u32);
    let mut value = number(&cur, c.basis);
    let mut carried = false;
    for step in 0..c.steps {
        let before = cur.clone();
        let next = exact::get_next_value(&mut cur, c.basis);
        value += 1;
        if value == top {
            cx.label("overflow");
            ensure!(next.is_none(), "after the last string {before:?} in base {} comes {next:?}", c.basis);
            cx.nontrivial_if(step > 0 || carried);
            return Ok(());
        }
        let Some(next) = next else {
            return Err(format!("no string after {before:?} in base {}", c.basis));
        };
        ensure!(
            next.len() == k && next.iter().all(|&d| d < c.basis) && number(&next, c.basis) == value,
            "after {before:?} in base {} comes {next:?}", c.basis
        );
        ensure!(next == cur, "returned {next:?} but left {cur:?} behind");
        carried |= before[k - 1] == c.basis - 1;
    }
    cx.nontrivial_if(carried);
    Ok(())
}

#[derive(Serialize, Deserialize)]
struct Split {
    digits: usize,
    basis: usize,
    chunks: usize,
}

fn run_split(c: &Split, cx: &mut Cx) -> CheckResult {
    let total = (c.basis as u128).pow(c.digits as u32);
    cx.nontrivial_if(c.chunks >= 2 && total % c.chunks as u128 != 0);
    cx.label(if total % c.chunks as u128 == 0 { "divides_evenly" } else { "remainder" });
    let mut at = 0u128;
    for k in 0..c.chunks {
        let (lo, hi) = exact::split_up_b_ary_number_into_n_chunks(c.digits, c.basis, c.chunks, k);
        ensure!(lo.len() == c.digits && hi.len() == c.digits, "chunk {k} of {}: {lo:?}..{hi:?} has wrong length", c.chunks);
        ensure!(lo.iter().all(|&d| d < c.basis), "chunk {k} of {} starts at {lo:?}, no string in base {}", c.chunks, c.basis);
        let (l, mut h) = (number(&lo, c.basis), number(&hi, c.basis));
        // past the last string there is no string; accept both ways to write the end
        if k + 1 == c.chunks && h == 0 && total > 0 {
            h = total;
        }
        ensure!(l == at, "chunk {k} of {} starts at {lo:?} = {l}, but the strings before {at} are covered", c.chunks);
        ensure!(h >= l, "chunk {k} of {}: {lo:?}..{hi:?} is reversed", c.chunks);
        if k + 1 < c.chunks {
            ensure!(hi.iter().all(|&d| d < c.basis), "chunk {k} of {} ends at {hi:?}, no string in base {}", c.chunks, c.basis);
        }
        at = h;
    }
    ensure!(at == total, "the {} chunks end at {at} of {total} strings", c.chunks);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            assumptions: vec!["distances are finite and non-negative", "costs are compared with relative tolerance 1e-9"],
            subs: vec![
                Box::new(Sub::<Solve> {
                    name: "optimal",
                    rule: "random symmetric instance (14 metric and 17 other families, n=1..9), algorithm v0..v6, matrix type; against Held-Karp. Non-trivial: n>=4 and the identity tour is not optimal",
                    quick: 200_000,
                    thorough: 4_000_000,
                    threads: 0,
                    gen: |g, i| {
                        let alg = (i % 7) as usize;
                        let max = [7, 8, 7, 8, 8, 8, 8][alg];
                        let n = size(g, 1, max);
                        Solve { inst: Inst::any(g, n), alg, vec_matrix: alg <= 4 && g.chance(0.3) }
                    },
                    run: run_solve,
                    shrink: shrink_solve,
                }),
                Box::new(Sub::<Solve> {
                    name: "larger",
                    rule: "as optimal, with n=9..10 for v4..v6 and n=9 for v1 and v3",
                    quick: 400,
                    thorough: 100_000,
                    threads: 0,
                    gen: |g, i| {
                        let alg = [1, 3, 4, 5, 6][(i % 5) as usize];
                        let n = if alg <= 3 { 9 } else { g.range(9, 10) };
                        Solve { inst: Inst::any(g, n), alg, vec_matrix: alg <= 4 && g.chance(0.3) }
                    },
                    run: run_solve,
                    shrink: shrink_solve,
                }),
                Box::new(Sub::<Solve> {
                    name: "deep",
                    rule: "n=10 for v0 and v2, 10..11 for v1 and v3, 11..12 for v4..v6, on five families where pruning works",
                    quick: 105,
                    thorough: 20_000,
                    threads: 0,
                    gen: |g, i| {
                        let alg = (i % 7) as usize;
                        let n = [10, g.range(10, 11), 10, g.range(10, 11), 11, g.range(11, 12), g.range(11, 12)][alg];
                        let kind = *g.pick(&["euclid", "cluster", "int_big", "uniform", "planted"]);
                        // between clusters, the bound leaves much to be searched
                        let n = if kind == "cluster" { n - 1 } else { n };
                        Solve { inst: Inst::new(n, kind, g.u64()), alg, vec_matrix: false }
                    },
                    run: run_solve,
                    shrink: shrink_solve,
                }),
                Box::new(Sub::<Roads> {
                    name: "many_cities",
                    rule: "13..22 cities for v3..v6, in every sixth case 33..36 and for v3, v5, v6 in every 24th case 65..68 cities: a ring with up to 4 shortcuts, other connections being too long to be used; against the enumeration of all tours along the roads. Non-trivial: the ring itself is not optimal",
                    quick: 400,
                    thorough: 20_000,
                    threads: 0,
                    gen: |g, i| {
                        let alg = 3 + (i % 4) as usize;
                        let large = i / 4 % 6 == 5;
                        let n = if large && i / 24 % 4 == 3 && alg != 4 {
                            g.range(65, 68)
                        } else if large {
                            g.range(33, 36)
                        } else {
                            g.range(13, 22)
                        };
                        let shortcuts = if large { g.range(1, 3) } else { g.range(1, 4) };
                        Roads::random(g, alg, n, shortcuts)
                    },
                    run: run_roads,
                    shrink: shrink_roads,
                }),
            ],
        },
        Prop {
            id: "P02",
            assumptions: vec![
                "the number of threads comes from std::thread::available_parallelism, whose answer the harness controls",
                "interleavings are those the operating system produces on pools of 1 to 8 threads, and those forced by holding workers at random memory allocations",
            ],
            subs: vec![Box::new(Sub::<Scheduled> {
                name: "scheduled",
                rule: "random instance (n=5..9), 2..n-1 pretended processors, 2..8 workers, each held at randomly drawn points (memory allocations) until the others make no progress any more; against Held-Karp. Non-trivial: the search is split and the identity tour is not optimal",
                quick: 8_000,
                thorough: 300_000,
                threads: 24,
                gen: |g, _| {
                    let n = g.range(5, 9);
                    let mut inst = Inst::any(g, n);
                    if n >= 6 && g.chance(0.7) {
                        inst = apart(g, &inst);
                    }
                    let tours = g.chance(0.5);
                    Scheduled {
                        inst,
                        tours,
                        processors: if g.chance(0.7) { n - 1 } else { g.range(2, n - 1) },
                        workers: g.range(2, 8),
                        seed: g.below(1 << 20) as u64,
                        holds: g.range(1, 4) as u32,
                        span: if tours { g.range(1, 5) } else if g.chance(0.7) { g.range(3, 9) } else { g.range(9, 15) } as f64,
                    }
                },
                run: run_scheduled,
                shrink: |_| vec![],
            }),
            Box::new(Sub::<Interpreted> {
                name: "interpreted",
                rule: "random instance (n=4..5, in thorough runs also 6), 2..n-1 pretended processors, 2..4 workers, the threads interleaved by Miri at randomly drawn basic blocks, with data races, deadlocks and other undefined behaviour reported; against Held-Karp. Non-trivial: the identity tour is not optimal",
                quick: 72,
                thorough: 6_000,
                threads: 0,
                gen: |g, i| {
                    let n = if i >= 500 && i % 16 == 3 { 6 } else if i % 4 == 0 { 4 } else { 5 };
                    let mut inst = Inst::any(g, n);
                    if n >= 6 && g.chance(0.7) {
                        inst = apart(g, &inst);
                    }
                    Interpreted {
                        what: "exact".into(),
                        inst,
                        xs: vec![],
                        points: vec![],
                        workers: g.range(2, 3),
                        processors: g.range(2, n - 1),
                        repeat: if n == 4 { g.range(1, 3) } else { 1 },
                        seed: g.below(1 << 30) as u32,
                        rate: 0.002 * 50f64.powf(g.f64()),
                    }
                },
                run: |c, cx| {
                    cx.nontrivial_if(identity_not_optimal(&c.inst));
                    miri::run(c, cx, |l| check_optimal(&c.inst, &miri::solution(l), "interpreted threaded solver"))
                },
                shrink: |c| miri::shrink(c, 2, false),
            }),
            Box::new(Sub::<Threaded> {
                name: "threaded",
                rule: "random instance (n=1..9), 1..12 pretended processors, worker pool of 1..8 threads; against Held-Karp. Non-trivial: fewer processors than cities (the search is split) and the identity tour is not optimal",
                quick: 20_000,
                thorough: 500_000,
                threads: 0,
                gen: |g, i| {
                    let n = if i % 50 == 0 { 9 } else { size(g, 1, 8) };
                    let processors = if g.chance(0.8) { g.range(1, n.max(2) - 1) } else { g.range(1, 12) };
                    Threaded { inst: Inst::any(g, n), processors, pool: g.range(0, 8) }
                },
                run: run_threaded,
                shrink: shrink_threaded,
            }),
            Box::new(Sub::<Threaded> {
                name: "threaded_larger",
                rule: "as threaded with n=10..11, 2..n-1 processors, on five families where pruning works",
                quick: 40,
                thorough: 5_000,
                threads: 4,
                gen: |g, _| {
                    let n = g.range(10, 11);
                    let inst = Inst::new(n, *g.pick(&["euclid", "cluster", "int_big", "uniform", "planted"]), g.u64());
                    Threaded { inst, processors: g.range(2, n - 1), pool: g.range(0, 8) }
                },
                run: run_threaded,
                shrink: shrink_threaded,
            }),
            Box::new(Sub::<RoadsThreaded> {
                name: "threaded_many",
                rule: "12..13 cities, every 8th time 16: a ring with up to 3 shortcuts, other connections being too long to be used, 2..n-1 processors; against the enumeration of all tours along the roads. Non-trivial: the ring itself is not optimal",
                quick: 16,
                thorough: 2_000,
                threads: 2,
                gen: |g, i| {
                    let n = if i % 8 == 7 { 16 } else { g.range(12, 13) };
                    let shortcuts = g.range(1, 3);
                    let roads = Roads::random(g, 7, n, shortcuts);
                    RoadsThreaded { roads, processors: g.range(2, n - 1), pool: *g.pick(&[0, 2, 5, 8, 8]) }
                },
                run: |c, cx| {
                    let inst = c.roads.inst();
                    let m = na(&inst);
                    check_roads(&c.roads, cx, "threaded solver", |_| {
                        let go = || with_processors(c.processors, || exact::threaded_solver(&m));
                        if c.pool == 0 { go() } else { pool(c.pool).install(go) }
                    })
                },
                shrink: |c| {
                    let v = shrink_roads(&c.roads);
                    v.into_iter().map(|roads| RoadsThreaded { processors: c.processors.min(roads.ring.len() - 1), roads, pool: c.pool }).collect()
                },
            }),
            ],
        },
        Prop {
            id: "P17",
            assumptions: vec![],
            subs: vec![
                Box::new(Sub::<Multiset> {
                    name: "permutations",
                    rule: "random multiset of 0..8 (some 9..10) items, complete enumeration against a recursive reference. Non-trivial: at least 3 arrangements",
                    quick: 20_000,
                    thorough: 200_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 400 == 7 { g.range(9, 10) } else { g.range(0, 8) };
                        let k = if n > 8 { *g.pick(&[2, 3, 4, 256]) } else { g.range(1, 8) };
                        Multiset { items: (0..n).map(|_| g.below(k) as u8).collect() }
                    },
                    run: run_permutations,
                    shrink: |c| {
                        (0..c.items.len())
                            .map(|i| {
                                let mut items = c.items.clone();
                                items.remove(i);
                                Multiset { items }
                            })
                            .collect()
                    },
                }),
                Box::new(Sub::<Steps> {
                    name: "permutation_steps",
                    rule: "random list of 0..40 (some up to 300) numbers, usually with a long descending end, up to 12 steps against a reference that keeps as much of the front as possible. Non-trivial: a step changes at least 4 items",
                    quick: 100_000,
                    thorough: 2_000_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 50 == 7 { g.range(41, 300) } else { g.range(0, 40) };
                        gen_steps(g, n)
                    },
                    run: run_steps,
                    shrink: |c| {
                        let mut v = vec![];
                        if c.steps > 1 {
                            v.push(Steps { items: c.items.clone(), steps: 1 });
                            v.push(Steps { items: c.items.clone(), steps: c.steps - 1 });
                        }
                        for i in 0..c.items.len() {
                            let mut items = c.items.clone();
                            items.remove(i);
                            v.push(Steps { items, steps: c.steps });
                        }
                        let mut sorted = c.items.clone();
                        sorted.sort();
                        sorted.dedup();
                        let ranks: Vec<i64> = c.items.iter().map(|x| sorted.binary_search(x).unwrap() as i64).collect();
                        if ranks != c.items {
                            v.push(Steps { items: ranks, steps: c.steps });
                        }
                        v
                    },
                }),
                Box::new(Sub::<Counter> {
                    name: "counter",
                    rule: "random digit string (1..6 digits, base 1..20; some 7..24 digits or base up to 2000), up to 400 steps against numbers. Non-trivial: a carry or the end is reached",
                    quick: 40_000,
                    thorough: 1_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let (basis, k) = match g.below(10) {
                            0 => (g.range(1, 20), g.range(7, 24)),
                            1 => (g.range(21, 2000), g.range(1, 9)),
                            _ => (g.range(1, 20), g.range(1, 6)),
                        };
                        let top = g.chance(0.4);
                        let start = (0..k).map(|_| if top && g.chance(0.8) { basis - 1 } else { g.below(basis) }).collect();
                        Counter { start, basis, steps: g.range(1, 400) }
                    },
                    run: run_counter,
                    shrink: |c| {
                        let mut v = vec![];
                        for steps in [1, c.steps / 2, c.steps - 1] {
                            if steps > 0 && steps < c.steps {
                                v.push(Counter { start: c.start.clone(), basis: c.basis, steps });
                            }
                        }
                        for i in 0..c.start.len() {
                            if c.start.len() > 1 {
                                let mut start = c.start.clone();
                                start.remove(i);
                                v.push(Counter { start, basis: c.basis, steps: c.steps });
                            }
                        }
                        v
                    },
                }),
                Box::new(Sub::<Split> {
                    name: "split",
                    rule: "random digits (1..5), base (1..30) and number of chunks (mostly below the number of strings), some up to 12 digits or base 1000; the chunks must tile all strings in order. Non-trivial: at least 2 chunks and a remainder",
                    quick: 60_000,
                    thorough: 1_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let big = g.chance(0.1);
                        let basis = if big { *g.pick(&[2, 3, 10, 12, 13, 16, 100, 256, 257, 1000]) } else { g.range(1, 30) };
                        let digits = if big {
                            // the code multiplies the number of strings with the number of chunks
                            let most = (1..=12).take_while(|&d| (basis as u128).pow(d) < 1 << 50).last().unwrap() as usize;
                            g.range(1, most)
                        } else {
                            g.range(1, if basis > 12 { 3 } else { 5 })
                        };
                        let total = basis.pow(digits as u32);
                        let max = if g.chance(0.1) { total.saturating_mul(2) } else { total.saturating_sub(1).max(1) };
                        let chunks = if g.bool() { g.range(1, max.min(20)) } else { g.range(1, max.min(3000)) };
                        Split { digits, basis, chunks }
                    },
                    run: run_split,
                    shrink: |c| {
                        let mut v = vec![];
                        for chunks in [1, 2, c.chunks / 2, c.chunks - 1] {
                            if chunks > 0 && chunks < c.chunks {
                                v.push(Split { chunks, ..*c });
                            }
                        }
                        for (digits, basis) in [(c.digits - 1, c.basis), (c.digits, c.basis / 2), (c.digits, c.basis - 1)] {
                            if digits > 0 && basis > 0 && basis.pow(digits as u32) > c.chunks && (digits, basis) != (c.digits, c.basis) {
                                v.push(Split { digits, basis, chunks: c.chunks });
                            }
                        }
                        v
                    },
                }),
            ],
        },
    ]
}
