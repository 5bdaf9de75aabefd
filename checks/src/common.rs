use engine::Inst;
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, VecMatrix};

pub fn na(inst: &Inst) -> NAMatrix {
    let mut m = NAMatrix::from_dim(inst.n);
    for i in 0..inst.n {
        for j in 0..inst.n {
            m.set(i, j, inst.d(i, j));
        }
    }
    m
}

pub fn vm(inst: &Inst) -> VecMatrix {
    let mut m = VecMatrix::from_dim(inst.n);
    for i in 0..inst.n {
        for j in 0..inst.n {
            m.set(i, j, inst.d(i, j));
        }
    }
    m
}

pub fn graph(inst: &Inst) -> Graph {
    let v: Vec<Vec<Edge>> = (0..inst.n)
        .map(|i| (0..inst.n).filter(|&j| j != i).map(|j| Edge { to: j, cost: inst.d(i, j) }).collect())
        .collect();
    Graph::from(v)
}

/// small sizes more often, up to `max`
pub fn size(g: &mut engine::Gen, min: usize, max: usize) -> usize {
    if g.chance(0.15) {
        g.range(min, max.min(min + 2))
    } else {
        g.range(min, max)
    }
}

/// a size from `min` to 1100, half of the time above 1024
pub fn giant(g: &mut engine::Gen, min: usize) -> usize {
    if g.bool() {
        g.range(1025, 1100)
    } else {
        g.range(min, 1100)
    }
}

pub fn same_matrix<M: AdjacencyMatrix>(m: &M, inst: &Inst) -> bool {
    m.dim() == inst.n && (0..inst.n).all(|i| (0..inst.n).all(|j| m.get(i, j) == inst.d(i, j)))
}

/// Checks `cost` and `tour` as an answer to `inst`: a permutation with that cost.
pub fn valid_tour(inst: &Inst, cost: f64, tour: &[usize], who: &str) -> engine::CheckResult {
    engine::ensure!(engine::oracle::is_perm(tour, inst.n), "{who}: {tour:?} is no ordering of the {} cities", inst.n);
    let real = inst.circle(tour);
    engine::ensure!(engine::oracle::eq(cost, real), "{who}: reported cost {cost} but {tour:?} has length {real}");
    Ok(())
}
