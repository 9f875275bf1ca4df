use crate::gen_::*;
use crate::prob::*;
use globalsearch::local_solver::runner::LocalSolver;
use globalsearch::types::{LocalSolution, SolutionSet};
use ndarray::Array1;

pub type Pts = Vec<(Vec<f64>, f64)>;

pub fn set_vec(s: &SolutionSet) -> Pts {
    s.solutions.iter().map(|l| (l.point.to_vec(), l.objective)).collect()
}
pub fn sols_vec(s: &[LocalSolution]) -> Pts {
    s.iter().map(|l| (l.point.to_vec(), l.objective)).collect()
}
pub fn same_pts(a: &Pts, b: &Pts) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_vec(&x.0, &y.0) && same(x.1, y.1))
}
pub fn local(c: &RunCase, p: &Prob) -> LocalSolver<Prob> {
    let (t, cfg) = c.solver.build();
    LocalSolver::new(p.clone(), t, cfg)
}
pub fn dist2(a: &[f64], b: &[f64]) -> f64 {
    let d = &Array1::from(a.to_vec()) - &Array1::from(b.to_vec());
    d.dot(&d)
}
pub fn unit_to_box(p: &ProbSpec, u: &[f64]) -> Vec<f64> {
    (0..p.dim())
        .map(|i| (p.lo[i] + u[i % u.len()] * p.width[i]).clamp(p.lo[i], p.hi(i)))
        .collect()
}
/// short rendering of a point list for messages
pub fn show(p: &Pts) -> String {
    let v: Vec<String> = p.iter().take(6).map(|(x, f)| format!("{f:?}@{x:?}")).collect();
    format!("{}[{}]", p.len(), v.join("; "))
}
