//! Generated checkpoint states and their field-by-field comparison.
use globalsearch::local_solver::builders::*;
use globalsearch::types::*;
use ndarray::Array1;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A checkpoint state described by raw numbers; all floats are bit patterns.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CkSpec {
    pub solver: u8,
    pub line: u8,
    pub ints: Vec<u64>,
    pub floats: Vec<u64>,
    pub dim: usize,
    pub n_set: Option<usize>,
    pub n_ref: usize,
    pub n_found: usize,
    pub flags: u8,
    pub stamp: String,
    pub iteration: usize,
}

fn f64_bits() -> BoxedStrategy<u64> {
    prop_oneof![
        6 => (-1000i32..1000).prop_map(|k| (k as f64 / 7.0).to_bits()),
        3 => any::<u64>(),
        1 => Just(f64::NAN.to_bits()),
        1 => Just((-f64::NAN).to_bits()),
        1 => Just(f64::INFINITY.to_bits()),
        1 => Just(f64::NEG_INFINITY.to_bits()),
        1 => Just((-0.0f64).to_bits()),
        1 => Just(1u64),
        1 => Just(f64::MAX.to_bits()),
    ]
    .boxed()
}
pub fn ck_spec(max_ref: usize) -> BoxedStrategy<CkSpec> {
    (
        (0u8..6, 0u8..2, any::<u8>()),
        prop::collection::vec(prop_oneof![4 => 0u64..1000, 1 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(0)], 8),
        prop::collection::vec(f64_bits(), 60),
        (1usize..6, proptest::option::of(0usize..5), prop_oneof![4 => 0..=max_ref.min(12), 1 => 0..=max_ref], 0usize..6),
        "[ -~àß日]{0,24}",
        prop_oneof![3 => 0usize..50, 1 => Just(usize::MAX), 1 => Just(1_000_000usize)],
    )
        .prop_map(|((solver, line, flags), ints, floats, (dim, n_set, n_ref, n_found), stamp, iteration)| CkSpec {
            solver,
            line,
            ints,
            floats,
            dim,
            n_set,
            n_ref,
            n_found,
            flags,
            stamp,
            iteration,
        })
        .boxed()
}

struct Cur<'a>(&'a CkSpec, usize, usize);
impl Cur<'_> {
    fn f(&mut self) -> f64 {
        let v = self.0.floats[self.1 % self.0.floats.len()];
        let round = (self.1 / self.0.floats.len()) as u64;
        self.1 += 1;
        // later rounds vary the mantissa so that repeated use gives different values
        f64::from_bits(v ^ round)
    }
    fn i(&mut self) -> u64 {
        let v = self.0.ints[self.2 % self.0.ints.len()];
        self.2 += 1;
        v
    }
}

impl CkSpec {
    pub fn build(&self) -> OQNLPCheckpoint {
        let mut c = Cur(self, 0, 0);
        let d = self.dim;
        let line = |c: &mut Cur| LineSearchParams {
            method: if self.line == 0 {
                LineSearchMethod::MoreThuente { c1: c.f(), c2: c.f(), width_tolerance: c.f(), bounds: Array1::from(vec![c.f(), c.f()]) }
            } else {
                LineSearchMethod::HagerZhang {
                    delta: c.f(),
                    sigma: c.f(),
                    epsilon: c.f(),
                    theta: c.f(),
                    gamma: c.f(),
                    eta: c.f(),
                    bounds: Array1::from(vec![c.f(), c.f()]),
                }
            },
        };
        let flag = |k: u8| self.flags >> k & 1 == 1;
        let (t, cfg) = match self.solver {
            0 => (
                LocalSolverType::LBFGS,
                LocalSolverConfig::LBFGS {
                    max_iter: c.i(),
                    tolerance_grad: c.f(),
                    tolerance_cost: c.f(),
                    history_size: c.i() as usize,
                    l1_coefficient: if flag(0) { Some(c.f()) } else { None },
                    line_search_params: line(&mut c),
                },
            ),
            1 => (
                LocalSolverType::NelderMead,
                LocalSolverConfig::NelderMead {
                    simplex_delta: c.f(),
                    sd_tolerance: c.f(),
                    max_iter: c.i(),
                    alpha: c.f(),
                    gamma: c.f(),
                    rho: c.f(),
                    sigma: c.f(),
                },
            ),
            2 => (
                LocalSolverType::SteepestDescent,
                LocalSolverConfig::SteepestDescent { max_iter: c.i(), line_search_params: line(&mut c) },
            ),
            3 => (
                LocalSolverType::TrustRegion,
                LocalSolverConfig::TrustRegion {
                    trust_region_radius_method: if flag(0) { TrustRegionRadiusMethod::Steihaug } else { TrustRegionRadiusMethod::Cauchy },
                    max_iter: c.i(),
                    radius: c.f(),
                    max_radius: c.f(),
                    eta: c.f(),
                },
            ),
            4 => (
                LocalSolverType::NewtonCG,
                LocalSolverConfig::NewtonCG {
                    max_iter: c.i(),
                    curvature_threshold: c.f(),
                    tolerance: c.f(),
                    line_search_params: line(&mut c),
                },
            ),
            _ => (
                LocalSolverType::COBYLA,
                LocalSolverConfig::COBYLA {
                    max_iter: c.i(),
                    initial_step_size: c.f(),
                    ftol_rel: c.f(),
                    ftol_abs: c.f(),
                    xtol_rel: c.f(),
                    xtol_abs: (0..(self.flags as usize & 3)).map(|_| c.f()).collect(),
                },
            ),
        };
        let pt = |c: &mut Cur| Array1::from((0..d).map(|_| c.f()).collect::<Vec<_>>());
        let sol = |c: &mut Cur| LocalSolution { point: pt(c), objective: c.f() };
        OQNLPCheckpoint {
            params: OQNLPParams {
                iterations: c.i() as usize,
                population_size: c.i() as usize,
                wait_cycle: c.i() as usize,
                threshold_factor: c.f(),
                distance_factor: c.f(),
                local_solver_type: t,
                local_solver_config: cfg,
                seed: c.i(),
            },
            current_iteration: self.iteration,
            merit_threshold: c.f(),
            solution_set: self.n_set.map(|n| SolutionSet { solutions: Array1::from((0..n).map(|_| sol(&mut c)).collect::<Vec<_>>()) }),
            reference_set: (0..self.n_ref).map(|_| pt(&mut c)).collect(),
            unchanged_cycles: c.i() as usize,
            elapsed_time: c.f(),
            distance_filter_solutions: (0..self.n_found).map(|_| sol(&mut c)).collect(),
            current_seed: c.i(),
            target_objective: if flag(1) { Some(c.f()) } else { None },
            exclude_out_of_bounds: flag(2),
            batch_iterations: if flag(3) { Some(c.i() as usize) } else { None },
            enable_parallel: flag(4),
            abs_tol: c.f(),
            rel_tol: c.f(),
            timestamp: self.stamp.clone(),
        }
    }
}

fn line_flat(l: &LineSearchParams, v: &mut Vec<(String, u64)>) {
    let mut p = |n: &str, x: f64| v.push((format!("line.{n}"), x.to_bits()));
    match &l.method {
        LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
            p("MoreThuente", 0.0);
            p("c1", *c1);
            p("c2", *c2);
            p("width_tolerance", *width_tolerance);
            for b in bounds {
                p("bounds", *b);
            }
        }
        LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => {
            p("HagerZhang", 0.0);
            p("delta", *delta);
            p("sigma", *sigma);
            p("epsilon", *epsilon);
            p("theta", *theta);
            p("gamma", *gamma);
            p("eta", *eta);
            for b in bounds {
                p("bounds", *b);
            }
        }
    }
}
/// every setting of a local-solver configuration, by name, as bits
pub fn flat_cfg(c: &LocalSolverConfig) -> Vec<(String, u64)> {
    let mut v = vec![];
    macro_rules! f {
        ($n:expr, $x:expr) => {
            v.push(($n.to_string(), ($x).to_bits()))
        };
    }
    macro_rules! i {
        ($n:expr, $x:expr) => {
            v.push(($n.to_string(), $x as u64))
        };
    }
    match c {
        LocalSolverConfig::LBFGS { max_iter, tolerance_grad, tolerance_cost, history_size, l1_coefficient, line_search_params } => {
            i!("LBFGS.max_iter", *max_iter);
            f!("tolerance_grad", *tolerance_grad);
            f!("tolerance_cost", *tolerance_cost);
            i!("history_size", *history_size);
            i!("has_l1", l1_coefficient.is_some());
            f!("l1", l1_coefficient.unwrap_or(0.0));
            line_flat(line_search_params, &mut v);
        }
        LocalSolverConfig::NelderMead { simplex_delta, sd_tolerance, max_iter, alpha, gamma, rho, sigma } => {
            i!("NelderMead.max_iter", *max_iter);
            f!("simplex_delta", *simplex_delta);
            f!("sd_tolerance", *sd_tolerance);
            f!("alpha", *alpha);
            f!("gamma", *gamma);
            f!("rho", *rho);
            f!("sigma", *sigma);
        }
        LocalSolverConfig::SteepestDescent { max_iter, line_search_params } => {
            i!("SteepestDescent.max_iter", *max_iter);
            line_flat(line_search_params, &mut v);
        }
        LocalSolverConfig::TrustRegion { trust_region_radius_method, max_iter, radius, max_radius, eta } => {
            i!("TrustRegion.max_iter", *max_iter);
            i!("steihaug", matches!(trust_region_radius_method, TrustRegionRadiusMethod::Steihaug));
            f!("radius", *radius);
            f!("max_radius", *max_radius);
            f!("eta", *eta);
        }
        LocalSolverConfig::NewtonCG { max_iter, curvature_threshold, tolerance, line_search_params } => {
            i!("NewtonCG.max_iter", *max_iter);
            f!("curvature_threshold", *curvature_threshold);
            f!("tolerance", *tolerance);
            line_flat(line_search_params, &mut v);
        }
        LocalSolverConfig::COBYLA { max_iter, initial_step_size, ftol_rel, ftol_abs, xtol_rel, xtol_abs } => {
            i!("COBYLA.max_iter", *max_iter);
            f!("initial_step_size", *initial_step_size);
            f!("ftol_rel", *ftol_rel);
            f!("ftol_abs", *ftol_abs);
            f!("xtol_rel", *xtol_rel);
            for x in xtol_abs {
                f!("xtol_abs", *x);
            }
        }
    }
    v
}

/// Every field as (name, bits); `volatile` includes the time stamp and the elapsed time.
pub fn flat(k: &OQNLPCheckpoint, volatile: bool) -> Vec<(String, u64)> {
    let mut v: Vec<(String, u64)> = vec![];
    let mut p = |n: &str, x: u64| v.push((n.to_string(), x));
    p("iterations", k.params.iterations as u64);
    p("population_size", k.params.population_size as u64);
    p("wait_cycle", k.params.wait_cycle as u64);
    p("threshold_factor", k.params.threshold_factor.to_bits());
    p("distance_factor", k.params.distance_factor.to_bits());
    p("seed", k.params.seed);
    p(&format!("solver {:?}", k.params.local_solver_type), 0);
    p("current_iteration", k.current_iteration as u64);
    p("merit_threshold", k.merit_threshold.to_bits());
    p("unchanged_cycles", k.unchanged_cycles as u64);
    p("current_seed", k.current_seed);
    p("has_target", k.target_objective.is_some() as u64);
    p("target", k.target_objective.unwrap_or(0.0).to_bits());
    p("exclude_out_of_bounds", k.exclude_out_of_bounds as u64);
    p("has_batch", k.batch_iterations.is_some() as u64);
    p("batch", k.batch_iterations.unwrap_or(0) as u64);
    p("parallel", k.enable_parallel as u64);
    p("abs_tol", k.abs_tol.to_bits());
    p("rel_tol", k.rel_tol.to_bits());
    p("has_set", k.solution_set.is_some() as u64);
    let sols = |name: &str, s: &mut dyn Iterator<Item = &LocalSolution>, p: &mut dyn FnMut(&str, u64)| {
        for (i, s) in s.enumerate() {
            p(&format!("{name}[{i}].objective"), s.objective.to_bits());
            for (j, x) in s.point.iter().enumerate() {
                p(&format!("{name}[{i}].point[{j}]"), x.to_bits());
            }
        }
    };
    if let Some(s) = &k.solution_set {
        p("set size", s.len() as u64);
        sols("solution_set", &mut s.solutions.iter(), &mut p);
    }
    p("found size", k.distance_filter_solutions.len() as u64);
    sols("distance_filter_solutions", &mut k.distance_filter_solutions.iter(), &mut p);
    p("reference size", k.reference_set.len() as u64);
    for (i, x) in k.reference_set.iter().enumerate() {
        for (j, y) in x.iter().enumerate() {
            p(&format!("reference_set[{i}][{j}]"), y.to_bits());
        }
    }
    if volatile {
        p("elapsed_time", k.elapsed_time.to_bits());
        p(&format!("timestamp {:?}", k.timestamp), 0);
    }
    v.extend(flat_cfg(&k.params.local_solver_config));
    v
}
pub fn diff_flat(a: &[(String, u64)], b: &[(String, u64)]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return Some(format!(
                "{:?} versus {:?}",
                a.get(i).map(|x| (x.0.clone(), x.1, f64::from_bits(x.1))),
                b.get(i).map(|x| (x.0.clone(), x.1, f64::from_bits(x.1)))
            ));
        }
    }
    None
}
