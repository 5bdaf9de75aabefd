//! Library calls that `rank` can make.
use engine::Inst;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub enum Job {
    /// prefix length
    Static(usize),
    StaticDefault,
    Dynamic,
    NearestNeighbour,
    /// through the entry point for some starts
    SomeStarts(usize),
    OneTree,
    Mst,
    Christofides,
    /// initial matching of process 0, tries
    Matching(Vec<[usize; 2]>, usize),
    /// vertices, tries; process 0 calls `approx_min_cost_matching`
    ApproxMatching(Vec<usize>, usize),
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Task {
    pub job: Job,
    pub inst: Inst,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Answer {
    Tour(f64, Vec<usize>),
    /// infinities do not survive JSON
    Bound(Option<f64>),
    Tree(Vec<Vec<(usize, f64)>>),
    Matching(Vec<[usize; 2]>),
    Nothing,
}

pub const MARK: &str = "VERIF-RESULT ";
