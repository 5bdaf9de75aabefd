//! TSP instances: symmetric, non-negative, zero diagonal.
use crate::gen::Gen;
use serde::{Deserialize, Serialize};

pub const METRIC_KINDS: &[&str] = &[
    "euclid", "cluster", "lattice", "line", "circle", "manhattan", "closure", "star", "one_two",
    "equal", "dup", "scaled", "tree", "extreme",
];
pub const FREE_KINDS: &[&str] = &[
    "int_tiny", "int_small", "int_big", "uniform", "zero_heavy", "wide", "big_m", "planted",
    "near_ties", "two_valued", "huge_offset", "decoy", "graded", "close", "remote", "spread",
    "roads",
];

/// A symmetric instance. `w` is the strict upper triangle, row by row.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(from = "Shadow", into = "Shadow")]
pub struct Inst {
    pub n: usize,
    pub kind: String,
    /// set if `w` is exactly `weights(n, kind, seed)`
    pub seed: Option<u64>,
    pub w: Vec<f64>,
}

#[derive(Clone, Serialize, Deserialize)]
struct Shadow {
    n: usize,
    kind: String,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    seed: Option<u64>,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    w: Option<Vec<f64>>,
}

impl From<Shadow> for Inst {
    fn from(s: Shadow) -> Inst {
        let w = match (s.w, s.seed) {
            (Some(w), _) => w,
            (None, Some(seed)) => weights(s.n, &s.kind, seed),
            _ => panic!("instance without weights"),
        };
        assert_eq!(w.len(), s.n * s.n.saturating_sub(1) / 2);
        Inst { n: s.n, kind: s.kind, seed: s.seed, w }
    }
}

impl From<Inst> for Shadow {
    fn from(i: Inst) -> Shadow {
        let explicit = i.seed.is_none() || i.n <= 10;
        Shadow { n: i.n, kind: i.kind, seed: i.seed, w: if explicit { Some(i.w) } else { None } }
    }
}

impl Inst {
    pub fn new(n: usize, kind: &str, seed: u64) -> Inst {
        Inst { n, kind: kind.to_string(), seed: Some(seed), w: weights(n, kind, seed) }
    }
    /// any kind of instance
    pub fn any(g: &mut Gen, n: usize) -> Inst {
        let kinds = if g.chance(0.45) { METRIC_KINDS } else { FREE_KINDS };
        let kind = *g.pick(kinds);
        let seed = g.u64();
        Inst::new(n, kind, seed)
    }
    pub fn metric(g: &mut Gen, n: usize) -> Inst {
        let kind = *g.pick(METRIC_KINDS);
        let seed = g.u64();
        Inst::new(n, kind, seed)
    }
    pub fn is_metric_kind(&self) -> bool {
        METRIC_KINDS.contains(&self.kind.as_str())
    }
    pub fn index(n: usize, i: usize, j: usize) -> usize {
        let (i, j) = if i < j { (i, j) } else { (j, i) };
        i * (2 * n - i - 1) / 2 + (j - i - 1)
    }
    #[inline]
    pub fn d(&self, i: usize, j: usize) -> f64 {
        if i == j {
            0.0
        } else {
            self.w[Inst::index(self.n, i, j)]
        }
    }
    pub fn from_fn(n: usize, kind: &str, mut f: impl FnMut(usize, usize) -> f64) -> Inst {
        let mut w = Vec::with_capacity(n * n.saturating_sub(1) / 2);
        for i in 0..n {
            for j in i + 1..n {
                w.push(f(i, j));
            }
        }
        Inst { n, kind: kind.to_string(), seed: None, w }
    }
    pub fn map(&self, f: impl Fn(f64) -> f64) -> Inst {
        Inst { n: self.n, kind: self.kind.clone(), seed: None, w: self.w.iter().map(|&x| f(x)).collect() }
    }
    /// city `i` of the new instance is city `p[i]` of this one
    pub fn relabel(&self, p: &[usize]) -> Inst {
        Inst::from_fn(p.len(), &self.kind, |i, j| self.d(p[i], p[j]))
    }
    pub fn without(&self, c: usize) -> Inst {
        let keep: Vec<usize> = (0..self.n).filter(|&i| i != c).collect();
        self.relabel(&keep)
    }
    pub fn max(&self) -> f64 {
        self.w.iter().copied().fold(0.0, f64::max)
    }
    /// Length of the closed tour through `t` in this order (0 for fewer than two cities).
    pub fn circle(&self, t: &[usize]) -> f64 {
        if t.len() < 2 {
            return 0.0;
        }
        (0..t.len()).map(|i| self.d(t[i], t[(i + 1) % t.len()])).sum()
    }
    pub fn is_exactly_metric(&self, slack: f64) -> bool {
        let n = self.n;
        for i in 0..n {
            for j in i + 1..n {
                for k in 0..n {
                    if self.d(i, j) > self.d(i, k) + self.d(k, j) + slack {
                        return false;
                    }
                }
            }
        }
        true
    }
    /// Smaller or simpler instances. Keeps a metric instance metric if `metric`.
    pub fn shrink(&self, min_n: usize, metric: bool) -> Vec<Inst> {
        let mut out = vec![];
        let n = self.n;
        if n > min_n && n > 14 {
            for m in [min_n.max(n / 4), min_n.max(n / 2), min_n.max(3 * n / 4), n - 1] {
                if m < n {
                    let p: Vec<usize> = (0..m).collect();
                    out.push(self.relabel(&p));
                    let p: Vec<usize> = (n - m..n).collect();
                    out.push(self.relabel(&p));
                }
            }
        } else if n > min_n {
            for c in (0..n).rev() {
                out.push(self.without(c));
            }
        }
        if n <= 14 {
            // ranks as weights, small integers, single weights
            let ints = self.map(|x| x.round().min(1e6));
            if ints.w != self.w {
                out.push(ints);
            }
            let m = self.max();
            if m > 0.0 {
                for k in [4.0, 10.0, 100.0] {
                    let i = self.map(|x| (x / m * k).round());
                    if i.w != self.w {
                        let different = |a: &[f64]| a.iter().filter(|x| x.fract() != 0.0).count();
                        if different(&self.w) > 0 || i.max() < self.max() {
                            out.push(i);
                        }
                    }
                }
            }
            if metric {
                let c = self.map(|x| x.ceil());
                if c.w != self.w {
                    out.push(c);
                }
            }
            for e in 0..self.w.len() {
                let x = self.w[e];
                let mut cand = vec![];
                if x != 0.0 {
                    cand.push(0.0);
                }
                if x > 1.0 || x.fract() != 0.0 && x != 0.0 {
                    cand.push(1.0);
                    if (x / 2.0).floor() > 1.0 && x < 1e15 {
                        cand.push((x / 2.0).floor());
                    }
                    if x.floor() != x {
                        cand.push(x.floor());
                    }
                }
                for y in cand {
                    let mut w = self.w.clone();
                    w[e] = y;
                    out.push(Inst { n, kind: self.kind.clone(), seed: None, w });
                }
            }
        }
        if metric {
            out.retain(|i| i.is_exactly_metric(1e-12 * i.max()));
        }
        out
    }
}

fn points(w: &[(f64, f64)]) -> Vec<f64> {
    let n = w.len();
    let mut v = Vec::with_capacity(n * n.saturating_sub(1) / 2);
    for i in 0..n {
        for j in i + 1..n {
            let (dx, dy) = (w[i].0 - w[j].0, w[i].1 - w[j].1);
            v.push((dx * dx + dy * dy).sqrt());
        }
    }
    v
}

/// The weights of a seeded instance.
pub fn weights(n: usize, kind: &str, seed: u64) -> Vec<f64> {
    let mut g = Gen::new(seed);
    let g = &mut g;
    let m = n * n.saturating_sub(1) / 2;
    fn free(g: &mut Gen, m: usize, mut f: impl FnMut(&mut Gen) -> f64) -> Vec<f64> {
        (0..m).map(|_| f(g)).collect()
    }
    match kind {
        // ---- metric
        "euclid" => {
            let s = *g.pick(&[1.0, 20.0, 1000.0]);
            points(&(0..n).map(|_| (g.f64() * s, g.f64() * s)).collect::<Vec<_>>())
        }
        "cluster" => {
            let k = g.range(1, 4);
            let c: Vec<(f64, f64)> = (0..k).map(|_| (g.f64() * 100.0, g.f64() * 100.0)).collect();
            let s = *g.pick(&[0.01, 1.0, 5.0]);
            let p: Vec<_> = (0..n)
                .map(|_| {
                    let &(x, y) = g.pick(&c);
                    (x + g.normal() * s, y + g.normal() * s)
                })
                .collect();
            points(&p)
        }
        "lattice" => {
            let k = g.range(2, 6);
            points(&(0..n).map(|_| (g.below(k) as f64, g.below(k) as f64)).collect::<Vec<_>>())
        }
        "line" => {
            let k = g.range(1, 3 * n.max(1));
            points(&(0..n).map(|_| (g.below(k + 1) as f64, 0.0)).collect::<Vec<_>>())
        }
        "circle" => {
            let p = g.perm(n);
            points(
                &(0..n)
                    .map(|i| {
                        let a = p[i] as f64 / n as f64 * std::f64::consts::TAU;
                        (10.0 * a.cos(), 10.0 * a.sin())
                    })
                    .collect::<Vec<_>>(),
            )
        }
        "manhattan" => {
            let k = g.range(2, 50);
            let p: Vec<(i64, i64)> = (0..n).map(|_| (g.below(k) as i64, g.below(k) as i64)).collect();
            let mut v = vec![];
            for i in 0..n {
                for j in i + 1..n {
                    v.push(((p[i].0 - p[j].0).abs() + (p[i].1 - p[j].1).abs()) as f64);
                }
            }
            v
        }
        "closure" => {
            // shortest paths in a sparse random graph with integer lengths
            let inf = 1u64 << 40;
            let mut d = vec![vec![inf; n]; n];
            for (i, row) in d.iter_mut().enumerate() {
                row[i] = 0;
            }
            let top = *g.pick(&[2usize, 5, 30, 1000]);
            let add = |d: &mut Vec<Vec<u64>>, i: usize, j: usize, c: u64| {
                if i != j && c < d[i][j] {
                    d[i][j] = c;
                    d[j][i] = c;
                }
            };
            let p = g.perm(n);
            for i in 1..n {
                let j = g.below(i);
                let c = g.range(1, top) as u64;
                add(&mut d, p[i], p[j], c);
            }
            for _ in 0..g.range(0, n) {
                let (i, j) = (g.below(n), g.below(n));
                let c = g.range(1, top) as u64;
                add(&mut d, i, j, c);
            }
            for k in 0..n {
                for i in 0..n {
                    for j in 0..n {
                        let x = d[i][k] + d[k][j];
                        if x < d[i][j] {
                            d[i][j] = x;
                        }
                    }
                }
            }
            let mut v = vec![];
            for i in 0..n {
                for j in i + 1..n {
                    v.push(d[i][j] as f64);
                }
            }
            v
        }
        "star" | "tree" => {
            let mut v = vec![];
            if kind == "star" {
                let r: Vec<f64> = (0..n).map(|_| g.below(10) as f64).collect();
                for i in 0..n {
                    for j in i + 1..n {
                        v.push(r[i] + r[j]);
                    }
                }
            } else {
                // distances in a random tree, leaves and inner vertices
                let mut d = vec![vec![0.0; n]; n];
                for i in 1..n {
                    let p = if g.chance(0.5) { i - 1 } else { g.below(i) };
                    let c = g.range(1, 9) as f64;
                    for j in 0..i {
                        d[i][j] = d[p][j] + c;
                        d[j][i] = d[i][j];
                    }
                }
                let p = g.perm(n);
                for i in 0..n {
                    for j in i + 1..n {
                        v.push(d[p[i]][p[j]]);
                    }
                }
            }
            v
        }
        "one_two" => {
            let p = g.f64();
            free(g, m, |g| if g.chance(p) { 1.0 } else { 2.0 })
        }
        "equal" => {
            let x = *g.pick(&[0.0, 1.0, 2.5, 0.1]);
            vec![x; m]
        }
        "dup" => {
            let k = g.range(1, n.max(1));
            let base: Vec<(f64, f64)> = (0..k).map(|_| (g.f64() * 10.0, g.f64() * 10.0)).collect();
            points(&(0..n).map(|_| *g.pick(&base)).collect::<Vec<_>>())
        }
        "scaled" => {
            let s = 10f64.powi(g.range(0, 12) as i32 - 6);
            points(&(0..n).map(|_| (g.f64() * s, g.f64() * s)).collect::<Vec<_>>())
        }
        "extreme" => {
            // far outside single precision; a power of two, so that rounding stays as it is
            let e = if g.chance(0.7) { g.range(140, 450) } else { g.range(450, 950) } as i32;
            let s = 2f64.powi(if g.bool() { e } else { -e });
            points(&(0..n).map(|_| (g.f64(), g.f64())).collect::<Vec<_>>()).into_iter().map(|d| d * s).collect()
        }
        // ---- not necessarily metric
        "int_tiny" => {
            let k = g.range(2, 4);
            free(g, m, |g| g.below(k) as f64)
        }
        "int_small" => free(g, m, |g| g.range(1, 12) as f64),
        "int_big" => free(g, m, |g| g.range(0, 100_000) as f64),
        "uniform" => free(g, m, |g| g.f64() * 10.0),
        "zero_heavy" => {
            let p = g.f64();
            free(g, m, |g| if g.chance(p) { 0.0 } else { g.range(1, 9) as f64 })
        }
        "wide" => free(g, m, |g| 10f64.powf(g.f64() * 12.0 - 6.0)),
        "big_m" => {
            // a few forbidden connections, as modellers write them
            let big = *g.pick(&[1e6, 1e9, 1e12, 1e15, 1e16, 1e17]);
            let p = *g.pick(&[0.1, 0.3, 0.5]);
            free(g, m, |g| if g.chance(p) { big } else { g.f64() * 10.0 })
        }
        "planted" => {
            // a cheap tour hidden among slightly dearer connections
            let t = g.perm(n);
            let lo = g.range(1, 5) as f64;
            let mut v = free(g, m, |g| lo + g.f64() * 3.0);
            if n >= 3 {
                for i in 0..n {
                    let e = Inst::index(n, t[i], t[(i + 1) % n]);
                    v[e] = if g.chance(0.8) { lo - g.f64() } else { lo + g.f64() * 0.5 };
                }
            }
            v
        }
        "near_ties" => free(g, m, |g| 1.0 + g.below(4) as f64 * 1e-6),
        "two_valued" => {
            let (a, b) = (g.range(0, 3) as f64, g.range(4, 40) as f64);
            let p = g.f64();
            free(g, m, |g| if g.chance(p) { a } else { b })
        }
        "huge_offset" => {
            let o = *g.pick(&[100.0, 1e4]);
            free(g, m, |g| o + g.below(20) as f64)
        }
        "decoy" => {
            // a path that a greedy walk likes, closed by an expensive connection
            let t = g.perm(n);
            let mut v = free(g, m, |g| 5.0 + g.below(4) as f64);
            for i in 1..n {
                v[Inst::index(n, t[i - 1], t[i])] = 1.0 + g.below(3) as f64;
            }
            if n >= 3 {
                v[Inst::index(n, t[0], t[n - 1])] = 50.0 + g.below(50) as f64;
            }
            v
        }
        "graded" => {
            // cost grows with the labels, so that the order of enumeration matters
            let mut v = vec![];
            let down = g.bool();
            for i in 0..n {
                for j in i + 1..n {
                    let x = if down { (2 * n - i - j) as f64 } else { (i + j) as f64 };
                    v.push(x * (1 + g.below(3)) as f64 + g.below(3) as f64);
                }
            }
            v
        }
        "close" => {
            // not to be told apart in single precision
            let o = *g.pick(&[1.0, 3.0, 1000.0]);
            free(g, m, |g| o * (1.0 + g.below(6) as f64 * 1e-8))
        }
        "remote" => {
            // far outside single precision
            let e = if g.chance(0.7) { g.range(140, 450) } else { g.range(450, 950) } as i32;
            let s = 2f64.powi(if g.bool() { e } else { -e });
            free(g, m, |g| g.range(0, 30) as f64 * s)
        }
        "roads" => {
            // a ring in the order of the numbers with some shortcuts; the rest is too far to be used
            let ring: Vec<f64> = (0..n).map(|_| g.range(2, 30) as f64).collect();
            let far = ring.iter().sum::<f64>() * *g.pick(&[1.5, 10.0, 1e6]);
            let mut v = vec![far; m];
            if n >= 3 {
                for i in 0..n {
                    v[Inst::index(n, i, (i + 1) % n)] = ring[i];
                }
            }
            if n >= 4 {
                for _ in 0..g.range(1, 3) {
                    let i = g.below(n);
                    let j = (i + g.range(2, n - 2)) % n;
                    let save = ring[i] + ring[j];
                    let a = (g.f64() * save).round();
                    let b = ((save - a) * (0.7 + 0.5 * g.f64())).round();
                    for (x, y, w) in [(i, j, a), ((i + 1) % n, (j + 1) % n, b)] {
                        let e = &mut v[Inst::index(n, x, y)];
                        *e = e.min(w);
                    }
                }
            }
            v
        }
        "spread" => free(g, m, |g| 10f64.powf(g.f64() * 60.0 - 30.0)),
        _ => panic!("unknown kind {kind}"),
    }
}
