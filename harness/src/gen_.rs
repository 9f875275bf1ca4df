//! Generators (proptest strategies) and the run-case description.
use crate::prob::*;
use globalsearch::local_solver::builders::*;
use globalsearch::oqnlp::OQNLP;
use globalsearch::types::{LocalSolverType, OQNLPParams};
use ndarray::{Array1, Array2};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Line {
    MT { c1: f64, c2: f64, wt: f64, b: (f64, f64) },
    HZ { delta: f64, sigma: f64, eps: f64, theta: f64, gamma: f64, eta: f64, b: (f64, f64) },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Solver {
    Cobyla { max_iter: u64, step: f64, ftol_rel: f64, ftol_abs: f64, xtol_rel: f64, xtol_abs: Vec<f64> },
    Lbfgs {
        max_iter: u64,
        tg: f64,
        tc: f64,
        hist: usize,
        #[serde(default)]
        l1: Option<f64>,
        line: Line,
    },
    NelderMead { max_iter: u64, delta: f64, sd: f64, alpha: f64, gamma: f64, rho: f64, sigma: f64 },
    Steepest { max_iter: u64, line: Line },
    Trust { max_iter: u64, steihaug: bool, radius: f64, max_radius: f64, eta: f64 },
    NewtonCg { max_iter: u64, curv: f64, tol: f64, line: Line },
}

#[cfg(feature = "argmin")]
impl Line {
    pub fn build(&self) -> LineSearchParams {
        match self {
            Line::MT { c1, c2, wt, b } => MoreThuenteBuilder::default()
                .c1(*c1)
                .c2(*c2)
                .width_tolerance(*wt)
                .bounds(Array1::from(vec![b.0, big(b.1)]))
                .build(),
            Line::HZ { delta, sigma, eps, theta, gamma, eta, b } => HagerZhangBuilder::default()
                .delta(*delta)
                .sigma(*sigma)
                .epsilon(*eps)
                .theta(*theta)
                .gamma(*gamma)
                .eta(*eta)
                .bounds(Array1::from(vec![b.0, big(b.1)]))
                .build(),
        }
    }
}
/// JSON has no infinity: 1e300 stands for it
pub fn big(x: f64) -> f64 {
    if x >= 1e300 { f64::INFINITY } else { x }
}

impl Solver {
    pub fn name(&self) -> &'static str {
        match self {
            Solver::Cobyla { .. } => "cobyla",
            Solver::Lbfgs { .. } => "lbfgs",
            Solver::NelderMead { .. } => "neldermead",
            Solver::Steepest { .. } => "steepest",
            Solver::Trust { .. } => "trust",
            Solver::NewtonCg { .. } => "newtoncg",
        }
    }
    pub fn build(&self) -> (LocalSolverType, LocalSolverConfig) {
        match self {
            Solver::Cobyla { max_iter, step, ftol_rel, ftol_abs, xtol_rel, xtol_abs } => {
                let mut b = COBYLABuilder::default()
                    .max_iter(*max_iter)
                    .initial_step_size(*step)
                    .ftol_rel(*ftol_rel)
                    .ftol_abs(*ftol_abs)
                    .xtol_rel(*xtol_rel);
                if !xtol_abs.is_empty() {
                    b = b.xtol_abs(xtol_abs.clone());
                }
                (LocalSolverType::COBYLA, b.build())
            }
            #[cfg(feature = "argmin")]
            Solver::Lbfgs { max_iter, tg, tc, hist, l1, line } => (
                LocalSolverType::LBFGS,
                LBFGSBuilder::default()
                    .max_iter(*max_iter)
                    .tolerance_grad(*tg)
                    .tolerance_cost(*tc)
                    .history_size(*hist)
                    .l1_coefficient(*l1)
                    .line_search_params(line.build())
                    .build(),
            ),
            #[cfg(feature = "argmin")]
            Solver::NelderMead { max_iter, delta, sd, alpha, gamma, rho, sigma } => (
                LocalSolverType::NelderMead,
                NelderMeadBuilder::default()
                    .max_iter(*max_iter)
                    .simplex_delta(*delta)
                    .sd_tolerance(*sd)
                    .alpha(*alpha)
                    .gamma(*gamma)
                    .rho(*rho)
                    .sigma(*sigma)
                    .build(),
            ),
            #[cfg(feature = "argmin")]
            Solver::Steepest { max_iter, line } => (
                LocalSolverType::SteepestDescent,
                SteepestDescentBuilder::default()
                    .max_iter(*max_iter)
                    .line_search_params(line.build())
                    .build(),
            ),
            #[cfg(feature = "argmin")]
            Solver::Trust { max_iter, steihaug, radius, max_radius, eta } => (
                LocalSolverType::TrustRegion,
                TrustRegionBuilder::default()
                    .max_iter(*max_iter)
                    .method(if *steihaug {
                        TrustRegionRadiusMethod::Steihaug
                    } else {
                        TrustRegionRadiusMethod::Cauchy
                    })
                    .radius(*radius)
                    .max_radius(*max_radius)
                    .eta(*eta)
                    .build(),
            ),
            #[cfg(feature = "argmin")]
            Solver::NewtonCg { max_iter, curv, tol, line } => (
                LocalSolverType::NewtonCG,
                NewtonCGBuilder::default()
                    .max_iter(*max_iter)
                    .curvature_threshold(*curv)
                    .tolerance(*tol)
                    .line_search_params(line.build())
                    .build(),
            ),
            #[cfg(not(feature = "argmin"))]
            _ => (LocalSolverType::COBYLA, COBYLABuilder::default().build()),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct RunCase {
    pub prob: ProbSpec,
    pub solver: Solver,
    pub pop: usize,
    pub iters: usize,
    pub wait: usize,
    pub tf: f64,
    pub df: f64,
    pub seed: u64,
    pub abs_tol: f64,
    pub rel_tol: f64,
    pub target: Option<f64>,
    pub excl: bool,
    pub parallel: bool,
    pub batch: Option<usize>,
    /// custom points in unit coordinates of the box
    pub custom: Vec<Vec<f64>>,
}

impl RunCase {
    pub fn params(&self) -> OQNLPParams {
        let (t, c) = self.solver.build();
        OQNLPParams {
            iterations: self.iters,
            population_size: self.pop,
            wait_cycle: self.wait,
            threshold_factor: self.tf,
            distance_factor: self.df,
            local_solver_type: t,
            local_solver_config: c,
            seed: self.seed,
        }
    }
    pub fn custom_points(&self) -> Option<Array2<f64>> {
        if self.custom.is_empty() {
            return None;
        }
        let d = self.prob.dim();
        Some(Array2::from_shape_fn((self.custom.len(), d), |(i, j)| {
            let u = self.custom[i][j % self.custom[i].len()];
            let (lo, hi) = (self.prob.lo[j], self.prob.hi(j));
            (lo + u * (hi - lo)).clamp(lo, hi)
        }))
    }
    pub fn optimizer(&self, p: &Prob) -> OQNLP<Prob> {
        self.optimizer_with(p, self.params())
    }
    pub fn optimizer_with(&self, p: &Prob, params: OQNLPParams) -> OQNLP<Prob> {
        let mut o = OQNLP::new(p.clone(), params)
            .expect("valid parameters")
            .with_tolerance(self.abs_tol, self.rel_tol);
        #[cfg(feature = "rayon")]
        {
            o = o.parallel(self.parallel);
            if let Some(b) = self.batch {
                o = o.batch_iterations(b);
            }
        }
        if let Some(t) = self.target {
            o = o.target_objective(t);
        }
        if self.excl {
            o = o.exclude_out_of_bounds();
        }
        if let Some(c) = self.custom_points() {
            o = o.with_points(c).expect("valid custom points");
        }
        o
    }
    /// batch size the run uses, if it does not depend on the machine
    pub fn batch_size(&self) -> usize {
        if !self.parallel { 1 } else { self.batch.unwrap_or(1) }
    }
}

// ---- strategies --------------------------------------------------------------------------------
pub fn frac() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => (0u32..=1000).prop_map(|k| k as f64 / 1000.0),
        1 => Just(0.5),
        1 => prop_oneof![Just(0.0), Just(1.0)],
    ]
    .boxed()
}

#[derive(Clone, Copy)]
pub struct POpt {
    pub max_dim: usize,
    pub smooth: bool,
    pub cons: bool,
    pub odd_scales: bool,
}
pub const PLAIN: POpt = POpt { max_dim: 4, smooth: false, cons: false, odd_scales: false };

pub fn kind(smooth: bool) -> BoxedStrategy<Kind> {
    if smooth {
        prop_oneof![
            3 => Just(Kind::Quad),
            4 => Just(Kind::DoubleWell),
            3 => Just(Kind::Rastrigin),
            3 => Just(Kind::Cosine),
        ]
        .boxed()
    } else {
        prop_oneof![
            3 => Just(Kind::Quad),
            5 => Just(Kind::DoubleWell),
            3 => Just(Kind::Rastrigin),
            4 => Just(Kind::Cosine),
            2 => Just(Kind::Abs),
            1 => Just(Kind::Const),
            1 => Just(Kind::Linear),
            2 => Just(Kind::Step),
        ]
        .boxed()
    }
}

/// Now and then the constraints stand among many that every point satisfies.
pub fn many_cons(cons: BoxedStrategy<Vec<u8>>) -> BoxedStrategy<Vec<u8>> {
    let pad = prop_oneof![15 => Just(vec![]), 1 => prop::collection::vec(any::<u16>(), 4..40)];
    (cons, pad)
        .prop_map(|(mut c, pad)| {
            for p in pad {
                c.insert(p as usize % (c.len() + 1), 100 + (p >> 8) as u8 % N_PADS);
            }
            c
        })
        .boxed()
}
pub fn prob(o: POpt) -> BoxedStrategy<ProbSpec> {
    let scales: BoxedStrategy<f64> = if o.odd_scales {
        prop_oneof![6 => Just(1.0), 1 => Just(1e-9), 1 => Just(1e-4), 1 => Just(1e3), 1 => Just(1e7)].boxed()
    } else {
        Just(1.0).boxed()
    };
    (
        // (now and then many variables)
        prop_oneof![40 => 1usize..=o.max_dim, 1 => o.max_dim + 1..=24],
        kind(o.smooth),
        scales,
        prop::collection::vec((-50i32..=50, 1u32..=60), o.max_dim),
        prop::collection::vec(
            prop_oneof![5 => (0u32..=100).prop_map(|k| k as f64 / 100.0), 2 => Just(0.5), 1 => Just(-0.2), 1 => Just(1.3)],
            o.max_dim,
        ),
        prop_oneof![3 => Just(1.0), 2 => Just(0.1), 1 => Just(7.5)],
        prop_oneof![4 => Just(0.0), 2 => Just(-3.0), 2 => Just(10.0), 1 => Just(1e6), 1 => Just(-1e4), 1 => Just(1e-7)],
        prop_oneof![4 => Just(0.0), 1 => Just(0.05), 1 => Just(1e-6), 1 => Just(1e-8), 1 => Just(-0.3)],
        prop_oneof![Just(1.5), Just(3.0), Just(6.0)],
        if o.cons {
            prop::collection::vec(0u8..9, 0..4).boxed()
        } else {
            Just(vec![]).boxed()
        },
    )
        .prop_map(move |(d, kind, sc, b, c, scale, offset, tilt, freq, cons)| {
            let cn = !cons.is_empty();
            let mut lo = vec![];
            let mut width = vec![];
            for i in 0..d {
                let (l, w) = b[i % b.len()];
                if cn {
                    // boxes that straddle the catalogue's regions
                    lo.push(-1.0 - (l + 50) as f64 / 40.0);
                    width.push(2.0 + (l + 50) as f64 / 40.0 + w as f64 / 20.0);
                } else {
                    lo.push(l as f64 / 10.0 * sc);
                    width.push(w as f64 / 5.0 * sc);
                }
            }
            ProbSpec {
                kind,
                lo,
                width,
                center: (0..d).map(|i| c[i % c.len()]).collect(),
                scale,
                offset,
                tilt,
                freq,
                cons,
                grad: true,
                hess: true,
                hole: None,
                fault: None,
            }
        })
        .boxed()
}

pub fn mt() -> BoxedStrategy<Line> {
    (
        prop_oneof![3 => Just(1e-4), 1 => Just(1e-3), 1 => Just(0.05)],
        prop_oneof![3 => Just(0.9), 1 => Just(0.5), 1 => Just(0.2)],
        prop_oneof![3 => Just(1e-10), 1 => Just(1e-4), 1 => Just(0.1)],
        prop_oneof![3 => Just((1.4901161193847656e-8, 1e300)), 1 => Just((1e-6, 10.0)), 1 => Just((1e-3, 2.0))],
    )
        .prop_map(|(c1, c2, wt, b)| Line::MT { c1, c2, wt, b })
        .boxed()
}
pub fn hz() -> BoxedStrategy<Line> {
    (
        prop_oneof![3 => Just(0.1), 1 => Just(0.05), 1 => Just(0.3)],
        prop_oneof![3 => Just(0.9), 1 => Just(0.7), 1 => Just(0.4)],
        prop_oneof![3 => Just(1e-6), 1 => Just(1e-3)],
        prop_oneof![3 => Just(0.5), 1 => Just(0.3), 1 => Just(0.7)],
        prop_oneof![3 => Just(0.66), 1 => Just(0.5), 1 => Just(0.8)],
        prop_oneof![3 => Just(0.01), 1 => Just(0.1)],
        prop_oneof![3 => Just((2.220446049250313e-16, 1e5)), 1 => Just((1e-8, 100.0)), 1 => Just((1e-4, 5.0))],
    )
        .prop_map(|(delta, sigma, eps, theta, gamma, eta, b)| Line::HZ {
            delta,
            sigma,
            eps,
            theta,
            gamma,
            eta,
            b,
        })
        .boxed()
}

pub fn cobyla() -> BoxedStrategy<Solver> {
    (
        prop_oneof![1 => Just(5u64), 2 => Just(40), 3 => Just(120), 1 => Just(400)],
        prop_oneof![3 => Just(0.5), 2 => Just(0.1), 1 => Just(1.5)],
        prop_oneof![3 => Just(1e-6), 1 => Just(1e-3), 1 => Just(0.0)],
        prop_oneof![3 => Just(1e-8), 1 => Just(1e-4), 1 => Just(0.0)],
        prop_oneof![3 => Just(0.0), 1 => Just(1e-4)],
    )
        .prop_map(|(max_iter, step, ftol_rel, ftol_abs, xtol_rel)| Solver::Cobyla {
            max_iter,
            step,
            ftol_rel,
            ftol_abs,
            xtol_rel,
            xtol_abs: vec![],
        })
        .boxed()
}
fn iters_small() -> BoxedStrategy<u64> {
    prop_oneof![1 => Just(1u64), 2 => Just(4), 3 => Just(15), 3 => Just(60)].boxed()
}
pub fn neldermead() -> BoxedStrategy<Solver> {
    (
        iters_small(),
        prop_oneof![3 => Just(0.1), 1 => Just(0.5), 1 => Just(0.01)],
        prop_oneof![Just(1e-6), Just(1e-3), Just(2.220446049250313e-16)],
        prop_oneof![4 => Just((1.0, 2.0, 0.5, 0.5)), 1 => Just((0.9, 2.5, 0.4, 0.3)), 1 => Just((1.1, 1.7, 0.45, 0.8))],
    )
        .prop_map(|(max_iter, delta, sd, (alpha, gamma, rho, sigma))| Solver::NelderMead {
            max_iter,
            delta,
            sd,
            alpha,
            gamma,
            rho,
            sigma,
        })
        .boxed()
}
pub fn lbfgs(line: BoxedStrategy<Line>) -> BoxedStrategy<Solver> {
    (
        iters_small(),
        prop_oneof![Just(1.4901161193847656e-8), Just(1e-3), Just(0.0)],
        prop_oneof![Just(2.220446049250313e-16), Just(1e-6), Just(1e-2)],
        prop_oneof![Just(1usize), Just(3), Just(10)],
        prop_oneof![5 => Just(None), 1 => Just(Some(0.5)), 1 => Just(Some(0.01))],
        line,
    )
        .prop_map(|(max_iter, tg, tc, hist, l1, line)| Solver::Lbfgs {
            max_iter,
            tg,
            tc,
            hist,
            l1,
            line,
        })
        .boxed()
}
pub fn steepest(line: BoxedStrategy<Line>) -> BoxedStrategy<Solver> {
    (iters_small(), line).prop_map(|(max_iter, line)| Solver::Steepest { max_iter, line }).boxed()
}
pub fn trust() -> BoxedStrategy<Solver> {
    (
        iters_small(),
        any::<bool>(),
        prop_oneof![Just(1.0), Just(0.1), Just(3.0)],
        prop_oneof![Just(100.0), Just(4.0)],
        prop_oneof![Just(0.125), Just(0.01), Just(0.24)],
    )
        .prop_map(|(max_iter, steihaug, radius, max_radius, eta)| Solver::Trust {
            max_iter,
            steihaug,
            radius,
            max_radius,
            eta,
        })
        .boxed()
}
pub fn newtoncg(line: BoxedStrategy<Line>) -> BoxedStrategy<Solver> {
    (
        iters_small(),
        prop_oneof![2 => Just(0.0), 1 => Just(0.5), 1 => Just(5.0)],
        prop_oneof![Just(1.4901161193847656e-8), Just(1e-2), Just(1e-4)],
        line,
    )
        .prop_map(|(max_iter, curv, tol, line)| Solver::NewtonCg { max_iter, curv, tol, line })
        .boxed()
}
/// any solver that makes sense for the problem
pub fn solver_for(p: &ProbSpec) -> BoxedStrategy<Solver> {
    if !cfg!(feature = "argmin") || !p.cons.is_empty() {
        return cobyla();
    }
    // the gradient-based solvers of the numerical library may loop forever on badly scaled boxes
    let odd = p.width.iter().any(|w| *w < 1e-2 || *w > 1e3);
    match p.kind {
        Kind::Quad | Kind::DoubleWell | Kind::Rastrigin | Kind::Cosine if !odd => prop_oneof![
            4 => cobyla(),
            3 => neldermead(),
            3 => lbfgs(mt()),
            2 => steepest(mt()),
            2 => trust(),
            2 => newtoncg(mt()),
            1 => lbfgs(hz()),
            1 => steepest(hz()),
            1 => newtoncg(hz()),
        ]
        .boxed(),
        _ => prop_oneof![3 => cobyla(), 2 => neldermead()].boxed(),
    }
}

#[derive(Clone, Copy)]
pub struct ROpt {
    pub p: POpt,
    pub max_pop: usize,
    pub custom: bool,
    pub target: bool,
    pub auto_batch: bool,
    pub sequential_only: bool,
}
pub const RUN: ROpt = ROpt {
    p: PLAIN,
    max_pop: 40,
    custom: true,
    target: false,
    auto_batch: false,
    sequential_only: false,
};

pub fn seed() -> BoxedStrategy<u64> {
    prop_oneof![8 => 0u64..1000, 2 => any::<u64>(), 1 => Just(0), 1 => Just(u64::MAX), 1 => Just(u64::MAX - 3)].boxed()
}

pub fn run_case(o: ROpt) -> BoxedStrategy<RunCase> {
    let base = prob(o.p).prop_flat_map(|p| {
        let s = solver_for(&p);
        (Just(p), s)
    });
    (
        base,
        (prop_oneof![60 => 4usize..=o.max_pop, 10 => Just(3usize), 20 => o.max_pop / 2..=o.max_pop, 1 => o.max_pop..=o.max_pop * 4], 0u32..=12, prop_oneof![3 => 1usize..=3, 3 => 1usize..=12, 1 => Just(100usize)]),
        (
            prop_oneof![3 => Just(0.2), 1 => Just(0.01), 2 => Just(1.0), 2 => Just(5.0), 1 => Just(60.0)],
            prop_oneof![1 => Just(0.0), 1 => Just(0.01), 3 => Just(0.2), 2 => Just(0.75), 1 => Just(2.0), 1 => Just(6.0)],
            seed(),
        ),
        (
            prop_oneof![3 => Just(1e-8), 1 => Just(0.0), 1 => Just(1e-4), 1 => Just(0.5)],
            prop_oneof![3 => Just(1e-6), 1 => Just(0.0), 1 => Just(1e-3), 1 => Just(0.1)],
        ),
        (
            if o.target {
                prop_oneof![2 => Just(None), 5 => (-40i32..=60).prop_map(|k| Some(k as f64 / 4.0)), 1 => Just(Some(1e6)), 1 => Just(Some(-1e12))].boxed()
            } else {
                Just(None).boxed()
            },
            prop_oneof![2 => Just(false), 1 => Just(true)],
        ),
        if o.sequential_only {
            Just((false, None)).boxed()
        } else if o.auto_batch {
            prop_oneof![
                2 => Just((false, None)),
                2 => Just((true, None)),
                4 => (1usize..=12).prop_map(|b| (true, Some(b))),
                1 => Just((true, Some(64))),
                1 => Just((false, Some(4))),
            ]
            .boxed()
        } else {
            prop_oneof![
                3 => Just((false, None)),
                4 => (1usize..=12).prop_map(|b| (true, Some(b))),
                1 => Just((true, Some(64))),
                1 => Just((false, Some(4))),
            ]
            .boxed()
        },
        if o.custom {
            prop_oneof![
                5 => Just(vec![]),
                3 => prop::collection::vec(prop::collection::vec(frac(), o.p.max_dim), 1..6),
            ]
            .boxed()
        } else {
            Just(vec![]).boxed()
        },
    )
        .prop_map(|((prob, solver), (pop, itk, wait), (tf, df, seed), (abs_tol, rel_tol), (target, excl), (parallel, batch), custom)| {
            // number of iterations: mostly the whole population, sometimes 0 / 1 / a part
            let iters = match itk {
                0 => 1,
                1 => pop / 2,
                2 => pop.saturating_sub(1),
                3 => (pop / 3).max(1),
                _ => pop,
            };
            // the cosine without tilt and the linear function are unbounded for walkers; fine
            let df = df * (prob.width.iter().cloned().fold(0.0, f64::max) / 4.0).max(1e-300);
            RunCase { prob, solver, pop, iters, wait, tf, df, seed, abs_tol, rel_tol, target, excl, parallel, batch, custom }
        })
        .boxed()
}

/// Runs in which Stage 2 finds better solutions than Stage 1: many wells, short local searches,
/// easily raised thresholds.
pub fn rich_case(o: ROpt) -> BoxedStrategy<RunCase> {
    (
        run_case(ROpt { p: POpt { smooth: true, ..o.p }, ..o }),
        prop_oneof![3 => Just(Kind::Rastrigin), 2 => Just(Kind::Cosine), 1 => Just(Kind::DoubleWell)],
        prop_oneof![3 => Just(6.0), 1 => Just(3.0), 1 => Just(11.0)],
        prop_oneof![2 => Just(0.05), 1 => Just(-0.3), 1 => Just(0.7)],
        prop_oneof![2 => Just(0.05), 1 => Just(0.5), 1 => Just(0.0)],
        (1usize..=3, prop_oneof![Just(1.0), Just(5.0), Just(40.0)], prop_oneof![2 => Just(0.02), 1 => Just(0.2), 1 => Just(0.0)]),
        prop_oneof![
            2 => Just(None),
            2 => Just(Some(Solver::Cobyla { max_iter: 6, step: 0.1, ftol_rel: 1e-6, ftol_abs: 1e-8, xtol_rel: 0.0, xtol_abs: vec![] })),
            1 => Just(Some(Solver::Cobyla { max_iter: 25, step: 0.05, ftol_rel: 1e-6, ftol_abs: 1e-8, xtol_rel: 0.0, xtol_abs: vec![] })),
            1 => Just(Some(Solver::NelderMead { max_iter: 3, delta: 0.1, sd: 1e-6, alpha: 1.0, gamma: 2.0, rho: 0.5, sigma: 0.5 })),
        ],
    )
        .prop_map(|(mut c, kind, freq, tilt, scale, (wait, tf, df), solver)| {
            c.prob.kind = kind;
            c.prob.freq = freq;
            c.prob.tilt = tilt;
            c.prob.scale = if kind == Kind::Cosine { 1.0 } else { scale };
            c.wait = wait;
            c.tf = tf;
            c.df = df * c.prob.width.iter().cloned().fold(0.0, f64::max) / 4.0;
            c.iters = c.iters.max(c.pop * 2 / 3);
            if let Some(s) = solver {
                c.solver = s;
            }
            c
        })
        .boxed()
}
