//! Reference algorithms, written from the definitions.
use crate::inst::Inst;

/// Optimal tour length by dynamic programming over subsets (Held and Karp). n <= 16.
pub fn held_karp(inst: &Inst) -> f64 {
    let n = inst.n;
    if n <= 1 {
        return 0.0;
    }
    if n == 2 {
        return 2.0 * inst.d(0, 1);
    }
    let k = n - 1; // cities 1..n as bits 0..k
    let full = (1usize << k) - 1;
    let dp = held_karp_table(inst);
    (0..k).map(|j| dp[full * k + j] + inst.d(j + 1, 0)).fold(f64::INFINITY, f64::min)
}

/// An optimal tour.
pub fn held_karp_tour(inst: &Inst) -> Vec<usize> {
    let n = inst.n;
    if n <= 2 {
        return (0..n).collect();
    }
    let k = n - 1;
    let dp = held_karp_table(inst);
    let mut s = (1usize << k) - 1;
    let mut tour = vec![0];
    while s != 0 {
        let from = *tour.last().unwrap();
        let j = (0..k)
            .filter(|j| s >> j & 1 == 1)
            .min_by(|&a, &b| (dp[s * k + a] + inst.d(a + 1, from)).total_cmp(&(dp[s * k + b] + inst.d(b + 1, from))))
            .unwrap();
        tour.push(j + 1);
        s &= !(1 << j);
    }
    tour
}

/// `[s * k + j]`: the shortest way from city 0 through the cities in `s`, ending at city j + 1 (n >= 3)
fn held_karp_table(inst: &Inst) -> Vec<f64> {
    let k = inst.n - 1;
    let full = (1usize << k) - 1;
    let mut dp = vec![f64::INFINITY; (full + 1) * k];
    for j in 0..k {
        dp[(1 << j) * k + j] = inst.d(0, j + 1);
    }
    let mut d = vec![0.0; k * k];
    for i in 0..k {
        for j in 0..k {
            d[i * k + j] = inst.d(i + 1, j + 1);
        }
    }
    for s in 1..=full {
        for j in 0..k {
            if s >> j & 1 == 0 {
                continue;
            }
            let here = dp[s * k + j];
            if here == f64::INFINITY {
                continue;
            }
            for t in 0..k {
                if s >> t & 1 == 1 {
                    continue;
                }
                let x = here + d[j * k + t];
                let slot = &mut dp[(s | 1 << t) * k + t];
                if x < *slot {
                    *slot = x;
                }
            }
        }
    }
    dp
}

pub struct Dsu(Vec<usize>);
impl Dsu {
    pub fn new(n: usize) -> Dsu {
        Dsu((0..n).collect())
    }
    pub fn find(&mut self, x: usize) -> usize {
        let mut r = x;
        while self.0[r] != r {
            r = self.0[r];
        }
        let mut x = x;
        while self.0[x] != r {
            let y = self.0[x];
            self.0[x] = r;
            x = y;
        }
        r
    }
    pub fn union(&mut self, a: usize, b: usize) -> bool {
        let (a, b) = (self.find(a), self.find(b));
        self.0[a] = b;
        a != b
    }
}

/// Kruskal on the vertices not excluded: weight of a minimum spanning tree.
pub fn kruskal(inst: &Inst, excluded: &[usize]) -> f64 {
    let n = inst.n;
    let mut out = vec![false; n];
    for &e in excluded {
        out[e] = true;
    }
    let keep: Vec<usize> = (0..n).filter(|&i| !out[i]).collect();
    let mut edges = Vec::with_capacity(keep.len() * keep.len() / 2);
    for (a, &i) in keep.iter().enumerate() {
        for &j in &keep[a + 1..] {
            edges.push((inst.d(i, j), i, j));
        }
    }
    edges.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
    let mut dsu = Dsu::new(n);
    let mut sum = 0.0;
    for (c, i, j) in edges {
        if dsu.union(i, j) {
            sum += c;
        }
    }
    sum
}

/// 1-tree weight with special vertex `s` (n >= 3).
pub fn one_tree(inst: &Inst, s: usize) -> f64 {
    let mut near: Vec<f64> = (0..inst.n).filter(|&j| j != s).map(|j| inst.d(s, j)).collect();
    near.sort_by(|a, b| a.partial_cmp(b).unwrap());
    kruskal(inst, &[s]) + near[0] + near[1]
}

/// Minimum cost perfect matching of `vs` by dynamic programming (|vs| even, <= 16).
pub fn min_matching(cost: &dyn Fn(usize, usize) -> f64, vs: &[usize]) -> (f64, Vec<[usize; 2]>) {
    let k = vs.len();
    let full = (1usize << k) - 1;
    let mut best = vec![f64::INFINITY; full + 1];
    let mut from = vec![(0usize, 0usize); full + 1];
    best[0] = 0.0;
    for s in 0..=full {
        if best[s] == f64::INFINITY || s == full {
            continue;
        }
        let i = (!s).trailing_zeros() as usize;
        for j in i + 1..k {
            if s >> j & 1 == 1 {
                continue;
            }
            let t = s | 1 << i | 1 << j;
            let x = best[s] + cost(vs[i], vs[j]);
            if x < best[t] {
                best[t] = x;
                from[t] = (i, j);
            }
        }
    }
    let mut m = vec![];
    let mut s = full;
    while s != 0 {
        let (i, j) = from[s];
        m.push([vs[i], vs[j]]);
        s &= !(1 << i | 1 << j);
    }
    (best[full], m)
}

/// Is `t` a permutation of 0..n?
pub fn is_perm(t: &[usize], n: usize) -> bool {
    let mut seen = vec![false; n];
    t.len() == n
        && t.iter().all(|&c| {
            if c < n && !seen[c] {
                seen[c] = true;
                true
            } else {
                false
            }
        })
}

/// A good tour of a large instance: nearest neighbour from 0 followed by 2-opt.
pub fn two_opt(inst: &Inst) -> Vec<usize> {
    let n = inst.n;
    let mut t = vec![0usize];
    let mut used = vec![false; n];
    if n == 0 {
        return vec![];
    }
    used[0] = true;
    while t.len() < n {
        let c = *t.last().unwrap();
        let mut b = usize::MAX;
        for j in 0..n {
            if !used[j] && (b == usize::MAX || inst.d(c, j) < inst.d(c, b)) {
                b = j;
            }
        }
        used[b] = true;
        t.push(b);
    }
    let mut rounds = 0;
    let mut better = n >= 4;
    while better && rounds < 60 {
        better = false;
        rounds += 1;
        for i in 0..n - 2 {
            for j in i + 2..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                let (a, b, c, d) = (t[i], t[i + 1], t[j], t[(j + 1) % n]);
                let delta = inst.d(a, c) + inst.d(b, d) - inst.d(a, b) - inst.d(c, d);
                if delta < -1e-9 * (inst.d(a, b) + inst.d(c, d)) {
                    t[i + 1..=j].reverse();
                    better = true;
                }
            }
        }
    }
    t
}

/// a <= b up to rounding of sums of non-negative numbers
pub fn le(a: f64, b: f64) -> bool {
    a <= b + 1e-9 * a.abs().max(b.abs())
}
/// a == b up to rounding of sums of non-negative numbers
pub fn eq(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

#[cfg(test)]
mod tests {
    //! The reference algorithms against complete enumeration (`cargo test` in engine/).
    use super::*;
    use crate::gen::Gen;

    fn permutations(n: usize, f: &mut dyn FnMut(&[usize])) {
        fn rec(p: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
            if k == p.len() {
                return f(p);
            }
            for i in k..p.len() {
                p.swap(k, i);
                rec(p, k + 1, f);
                p.swap(k, i);
            }
        }
        rec(&mut (0..n).collect(), 0, f)
    }

    #[test]
    fn tours() {
        for seed in 0..3000 {
            let mut g = Gen::new(seed);
            let n = g.range(1, 7);
            let inst = Inst::any(&mut g, n);
            let mut best = f64::INFINITY;
            permutations(n, &mut |p| best = best.min(inst.circle(p)));
            assert!(eq(held_karp(&inst), best), "{} {best}", held_karp(&inst));
            let t = held_karp_tour(&inst);
            assert!(is_perm(&t, n) && eq(inst.circle(&t), best), "{t:?}");
            assert!(is_perm(&two_opt(&inst), n));
        }
    }

    #[test]
    fn trees() {
        // all labelled trees through their Pruefer sequences
        for seed in 0..400 {
            let mut g = Gen::new(seed);
            let n = g.range(3, 6);
            let inst = Inst::any(&mut g, n);
            let mut best = f64::INFINITY;
            for code in 0..n.pow(n as u32 - 2) {
                let s: Vec<usize> = (0..n - 2).map(|i| code / n.pow(i as u32) % n).collect();
                let mut deg = vec![1; n];
                s.iter().for_each(|&x| deg[x] += 1);
                let mut w = 0.0;
                for &x in &s {
                    let leaf = (0..n).find(|&v| deg[v] == 1).unwrap();
                    w += inst.d(leaf, x);
                    deg[leaf] = 0;
                    deg[x] -= 1;
                }
                let last: Vec<usize> = (0..n).filter(|&v| deg[v] == 1).collect();
                best = best.min(w + inst.d(last[0], last[1]));
            }
            assert!(eq(kruskal(&inst, &[]), best));
            for s in 0..n {
                assert!(eq(kruskal(&inst, &[s]), kruskal(&inst.without(s), &[])));
                assert!(le(one_tree(&inst, s), held_karp(&inst)));
            }
        }
    }

    #[test]
    fn matchings() {
        for seed in 0..1000 {
            let mut g = Gen::new(seed);
            let n = g.range(1, 8);
            let inst = Inst::any(&mut g, n);
            let k = 2 * g.range(0, n / 2);
            let vs = g.subset(n, k);
            let mut best = f64::INFINITY;
            permutations(k, &mut |p| best = best.min(p.chunks(2).map(|c| inst.d(vs[c[0]], vs[c[1]])).sum()));
            let (w, m) = min_matching(&|i, j| inst.d(i, j), &vs);
            assert!(eq(w, best));
            let mut used: Vec<usize> = m.iter().flatten().copied().collect();
            used.sort();
            let mut want = vs.clone();
            want.sort();
            assert_eq!(used, want);
            assert!(eq(m.iter().map(|&[i, j]| inst.d(i, j)).sum(), w));
        }
    }

    #[test]
    fn metric_kinds() {
        for (i, kind) in crate::inst::METRIC_KINDS.iter().enumerate() {
            for seed in 0..200 {
                let inst = Inst::new(2 + (seed as usize + i) % 12, kind, seed);
                assert!(inst.is_exactly_metric(1e-12 * inst.max()), "{kind} {seed}");
            }
        }
    }
}
