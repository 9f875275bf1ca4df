//! Local-solver configurations with arbitrary values, and the numerical libraries driven directly.
use crate::prob::*;
use argmin::core::{CostFunction, Error, Executor, Gradient, Hessian, IterState, Solver as ASolver, State};
use argmin::solver::gradientdescent::SteepestDescent;
use argmin::solver::linesearch::{HagerZhangLineSearch, MoreThuenteLineSearch};
use argmin::solver::neldermead::NelderMead;
use argmin::solver::newton::NewtonCG;
use argmin::solver::quasinewton::LBFGS;
use argmin::solver::trustregion::{CauchyPoint, Steihaug, TrustRegion};
use globalsearch::local_solver::builders::*;
use globalsearch::problem::Problem;
use globalsearch::types::LocalSolverType;
use ndarray::{Array1, Array2};
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// A number that survives JSON: not-a-number and infinities included.
#[derive(Clone, Copy, PartialEq)]
pub struct N(pub f64);
impl std::fmt::Debug for N {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for N {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_finite() {
            s.serialize_f64(self.0)
        } else if self.0.is_nan() {
            s.serialize_str(if self.0.is_sign_negative() { "-nan" } else { "nan" })
        } else {
            s.serialize_str(if self.0 < 0.0 { "-inf" } else { "inf" })
        }
    }
}
impl<'de> Deserialize<'de> for N {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<N, D::Error> {
        let v = serde_json::Value::deserialize(d)?;
        Ok(N(match v.as_str() {
            Some("nan") => f64::NAN,
            Some("-nan") => -f64::NAN,
            Some("inf") => f64::INFINITY,
            Some("-inf") => f64::NEG_INFINITY,
            _ => v.as_f64().unwrap_or(0.0),
        }))
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum LS {
    Mt { c1: N, c2: N, wt: N, b: Vec<N> },
    Hz { delta: N, sigma: N, eps: N, theta: N, gamma: N, eta: N, b: Vec<N> },
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum LC {
    Cobyla { max_iter: u64, step: N, fr: N, fa: N, xr: N, xa: Vec<N> },
    Lbfgs { max_iter: u64, tg: N, tc: N, hist: usize, l1: Option<N>, ls: LS },
    Nm { max_iter: u64, delta: N, sd: N, alpha: N, gamma: N, rho: N, sigma: N },
    Sd { max_iter: u64, ls: LS },
    Tr { max_iter: u64, steihaug: bool, radius: N, max_radius: N, eta: N },
    Nc { max_iter: u64, curv: N, tol: N, ls: LS },
}

fn arr(v: &[N]) -> Array1<f64> {
    v.iter().map(|x| x.0).collect()
}

impl LS {
    pub fn literal(&self) -> LineSearchParams {
        LineSearchParams {
            method: match self {
                LS::Mt { c1, c2, wt, b } => {
                    LineSearchMethod::MoreThuente { c1: c1.0, c2: c2.0, width_tolerance: wt.0, bounds: arr(b) }
                }
                LS::Hz { delta, sigma, eps, theta, gamma, eta, b } => LineSearchMethod::HagerZhang {
                    delta: delta.0,
                    sigma: sigma.0,
                    epsilon: eps.0,
                    theta: theta.0,
                    gamma: gamma.0,
                    eta: eta.0,
                    bounds: arr(b),
                },
            },
        }
    }
    /// through the builder, setters in one of two orders or the positional constructor
    pub fn built(&self, how: u8) -> LineSearchParams {
        match self {
            LS::Mt { c1, c2, wt, b } => match how % 3 {
                0 => MoreThuenteBuilder::new(c1.0, c2.0, wt.0, arr(b)).build(),
                1 => LineSearchParams::morethuente().c1(c1.0).c2(c2.0).width_tolerance(wt.0).bounds(arr(b)).build(),
                _ => MoreThuenteBuilder::default().bounds(arr(b)).width_tolerance(wt.0).c2(c2.0).c1(c1.0).build(),
            },
            LS::Hz { delta, sigma, eps, theta, gamma, eta, b } => match how % 3 {
                0 => HagerZhangBuilder::new(delta.0, sigma.0, eps.0, theta.0, gamma.0, eta.0, arr(b)).build(),
                1 => LineSearchParams::hagerzhang()
                    .delta(delta.0)
                    .sigma(sigma.0)
                    .epsilon(eps.0)
                    .theta(theta.0)
                    .gamma(gamma.0)
                    .eta(eta.0)
                    .bounds(arr(b))
                    .build(),
                _ => HagerZhangBuilder::default()
                    .bounds(arr(b))
                    .eta(eta.0)
                    .gamma(gamma.0)
                    .theta(theta.0)
                    .epsilon(eps.0)
                    .sigma(sigma.0)
                    .delta(delta.0)
                    .build(),
            },
        }
    }
}

fn method(steihaug: bool) -> TrustRegionRadiusMethod {
    if steihaug { TrustRegionRadiusMethod::Steihaug } else { TrustRegionRadiusMethod::Cauchy }
}

pub fn types() -> [LocalSolverType; 6] {
    [
        LocalSolverType::COBYLA,
        LocalSolverType::LBFGS,
        LocalSolverType::NelderMead,
        LocalSolverType::SteepestDescent,
        LocalSolverType::TrustRegion,
        LocalSolverType::NewtonCG,
    ]
}

impl LC {
    pub fn index(&self) -> usize {
        match self {
            LC::Cobyla { .. } => 0,
            LC::Lbfgs { .. } => 1,
            LC::Nm { .. } => 2,
            LC::Sd { .. } => 3,
            LC::Tr { .. } => 4,
            LC::Nc { .. } => 5,
        }
    }
    pub fn name(&self) -> &'static str {
        ["cobyla", "lbfgs", "neldermead", "steepest", "trust", "newtoncg"][self.index()]
    }
    pub fn line(&self) -> &'static str {
        match self {
            LC::Lbfgs { ls, .. } | LC::Sd { ls, .. } | LC::Nc { ls, .. } => match ls {
                LS::Mt { .. } => "-mt",
                LS::Hz { .. } => "-hz",
            },
            LC::Tr { steihaug, .. } => {
                if *steihaug {
                    "-steihaug"
                } else {
                    "-cauchy"
                }
            }
            _ => "",
        }
    }
    pub fn max_iter(&self) -> u64 {
        match self {
            LC::Cobyla { max_iter, .. }
            | LC::Lbfgs { max_iter, .. }
            | LC::Nm { max_iter, .. }
            | LC::Sd { max_iter, .. }
            | LC::Tr { max_iter, .. }
            | LC::Nc { max_iter, .. } => *max_iter,
        }
    }
    pub fn l1(&self) -> bool {
        matches!(self, LC::Lbfgs { l1: Some(_), .. })
    }
    pub fn ty(&self) -> LocalSolverType {
        types()[self.index()].clone()
    }
    pub fn literal(&self) -> LocalSolverConfig {
        match self {
            LC::Cobyla { max_iter, step, fr, fa, xr, xa } => LocalSolverConfig::COBYLA {
                max_iter: *max_iter,
                initial_step_size: step.0,
                ftol_rel: fr.0,
                ftol_abs: fa.0,
                xtol_rel: xr.0,
                xtol_abs: xa.iter().map(|x| x.0).collect(),
            },
            LC::Lbfgs { max_iter, tg, tc, hist, l1, ls } => LocalSolverConfig::LBFGS {
                max_iter: *max_iter,
                tolerance_grad: tg.0,
                tolerance_cost: tc.0,
                history_size: *hist,
                l1_coefficient: l1.map(|x| x.0),
                line_search_params: ls.literal(),
            },
            LC::Nm { max_iter, delta, sd, alpha, gamma, rho, sigma } => LocalSolverConfig::NelderMead {
                max_iter: *max_iter,
                simplex_delta: delta.0,
                sd_tolerance: sd.0,
                alpha: alpha.0,
                gamma: gamma.0,
                rho: rho.0,
                sigma: sigma.0,
            },
            LC::Sd { max_iter, ls } => {
                LocalSolverConfig::SteepestDescent { max_iter: *max_iter, line_search_params: ls.literal() }
            }
            LC::Tr { max_iter, steihaug, radius, max_radius, eta } => LocalSolverConfig::TrustRegion {
                trust_region_radius_method: method(*steihaug),
                max_iter: *max_iter,
                radius: radius.0,
                max_radius: max_radius.0,
                eta: eta.0,
            },
            LC::Nc { max_iter, curv, tol, ls } => LocalSolverConfig::NewtonCG {
                max_iter: *max_iter,
                curvature_threshold: curv.0,
                tolerance: tol.0,
                line_search_params: ls.literal(),
            },
        }
    }
    pub fn built(&self, how: u8) -> LocalSolverConfig {
        let h = how / 3;
        match self {
            LC::Cobyla { max_iter, step, fr, fa, xr, xa } => {
                let xa: Vec<f64> = xa.iter().map(|x| x.0).collect();
                match how % 3 {
                    0 => COBYLABuilder::new(*max_iter, step.0).ftol_rel(fr.0).ftol_abs(fa.0).xtol_rel(xr.0).xtol_abs(xa).build(),
                    1 => LocalSolverConfig::cobyla()
                        .max_iter(*max_iter)
                        .initial_step_size(step.0)
                        .ftol_rel(fr.0)
                        .ftol_abs(fa.0)
                        .xtol_rel(xr.0)
                        .xtol_abs(xa)
                        .build(),
                    _ => COBYLABuilder::default()
                        .xtol_abs(xa)
                        .xtol_rel(xr.0)
                        .ftol_abs(fa.0)
                        .ftol_rel(fr.0)
                        .initial_step_size(step.0)
                        .max_iter(*max_iter)
                        .build(),
                }
            }
            LC::Lbfgs { max_iter, tg, tc, hist, l1, ls } => {
                let l1 = l1.map(|x| x.0);
                match how % 3 {
                    0 => LBFGSBuilder::new(*max_iter, tg.0, tc.0, *hist, l1, ls.built(h)).build(),
                    1 => LocalSolverConfig::lbfgs()
                        .max_iter(*max_iter)
                        .tolerance_grad(tg.0)
                        .tolerance_cost(tc.0)
                        .history_size(*hist)
                        .line_search_params(ls.built(h))
                        .l1_coefficient(l1)
                        .build(),
                    _ => LBFGSBuilder::default()
                        .l1_coefficient(l1)
                        .line_search_params(ls.built(h))
                        .history_size(*hist)
                        .tolerance_cost(tc.0)
                        .tolerance_grad(tg.0)
                        .max_iter(*max_iter)
                        .build(),
                }
            }
            LC::Nm { max_iter, delta, sd, alpha, gamma, rho, sigma } => match how % 3 {
                0 => NelderMeadBuilder::new(delta.0, sd.0, *max_iter, alpha.0, gamma.0, rho.0, sigma.0).build(),
                1 => LocalSolverConfig::neldermead()
                    .max_iter(*max_iter)
                    .simplex_delta(delta.0)
                    .sd_tolerance(sd.0)
                    .alpha(alpha.0)
                    .gamma(gamma.0)
                    .rho(rho.0)
                    .sigma(sigma.0)
                    .build(),
                _ => NelderMeadBuilder::default()
                    .sigma(sigma.0)
                    .rho(rho.0)
                    .gamma(gamma.0)
                    .alpha(alpha.0)
                    .sd_tolerance(sd.0)
                    .simplex_delta(delta.0)
                    .max_iter(*max_iter)
                    .build(),
            },
            LC::Sd { max_iter, ls } => match how % 3 {
                0 => SteepestDescentBuilder::new(*max_iter, ls.built(h)).build(),
                1 => LocalSolverConfig::steepestdescent().max_iter(*max_iter).line_search_params(ls.built(h)).build(),
                _ => SteepestDescentBuilder::default().line_search_params(ls.built(h)).max_iter(*max_iter).build(),
            },
            LC::Tr { max_iter, steihaug, radius, max_radius, eta } => match how % 3 {
                0 => TrustRegionBuilder::new(method(*steihaug), *max_iter, radius.0, max_radius.0, eta.0).build(),
                1 => LocalSolverConfig::trustregion()
                    .method(method(*steihaug))
                    .max_iter(*max_iter)
                    .radius(radius.0)
                    .max_radius(max_radius.0)
                    .eta(eta.0)
                    .build(),
                _ => TrustRegionBuilder::default()
                    .eta(eta.0)
                    .max_radius(max_radius.0)
                    .radius(radius.0)
                    .max_iter(*max_iter)
                    .method(method(*steihaug))
                    .build(),
            },
            LC::Nc { max_iter, curv, tol, ls } => match how % 3 {
                0 => NewtonCGBuilder::new(*max_iter, curv.0, tol.0, ls.built(h)).build(),
                1 => LocalSolverConfig::newton_cg()
                    .max_iter(*max_iter)
                    .curvature_threshold(curv.0)
                    .tolerance(tol.0)
                    .line_search_params(ls.built(h))
                    .build(),
                _ => NewtonCGBuilder::default()
                    .line_search_params(ls.built(h))
                    .tolerance(tol.0)
                    .curvature_threshold(curv.0)
                    .max_iter(*max_iter)
                    .build(),
            },
        }
    }
}

// ---- the numerical libraries, driven directly ------------------------------------------------
struct D(Prob);
impl CostFunction for D {
    type Param = Array1<f64>;
    type Output = f64;
    fn cost(&self, x: &Array1<f64>) -> Result<f64, Error> {
        self.0.objective(x).map_err(|e| Error::msg(e.to_string()))
    }
}
impl Gradient for D {
    type Param = Array1<f64>;
    type Gradient = Array1<f64>;
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, Error> {
        self.0.gradient(x).map_err(|e| Error::msg(e.to_string()))
    }
}
impl Hessian for D {
    type Param = Array1<f64>;
    type Hessian = Array2<f64>;
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, Error> {
        self.0.hessian(x).map_err(|e| Error::msg(e.to_string()))
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum DirectErr {
    Config(String),
    Run(String),
}
pub type Direct = Result<(Vec<f64>, f64), DirectErr>;

type St<G, H> = IterState<Array1<f64>, G, (), H, (), f64>;

fn exec<S, G, H>(solver: S, p: &Prob, x0: Option<Array1<f64>>, max_iter: u64) -> Direct
where
    S: ASolver<D, St<G, H>>,
    St<G, H>: State<Param = Array1<f64>, Float = f64>,
{
    let r = Executor::new(D(p.clone()), solver)
        .configure(|s| {
            let s = s.max_iters(max_iter);
            match x0 {
                Some(x) => s.param(x),
                None => s,
            }
        })
        .run()
        .map_err(|e| DirectErr::Run(e.to_string()))?;
    let st = r.state();
    match &st.best_param {
        Some(x) => Ok((x.to_vec(), st.best_cost)),
        None => Err(DirectErr::Run("no solution".into())),
    }
}

type Ga = Array1<f64>;
fn ce(e: Error) -> DirectErr {
    DirectErr::Config(e.to_string())
}
fn two(b: &[N]) -> Result<(f64, f64), DirectErr> {
    if b.len() != 2 { Err(DirectErr::Config("bounds are not a pair".into())) } else { Ok((b[0].0, b[1].0)) }
}
fn more_thuente(c1: f64, c2: f64, wt: f64, b: &[N]) -> Result<MoreThuenteLineSearch<Ga, Ga, f64>, DirectErr> {
    let b = two(b)?;
    MoreThuenteLineSearch::new()
        .with_c(c1, c2)
        .and_then(|l| l.with_bounds(b.0, b.1))
        .and_then(|l| l.with_width_tolerance(wt))
        .map_err(ce)
}
#[allow(clippy::too_many_arguments)]
fn hager_zhang(
    delta: f64,
    sigma: f64,
    eps: f64,
    theta: f64,
    gamma: f64,
    eta: f64,
    b: &[N],
) -> Result<HagerZhangLineSearch<Ga, Ga, f64>, DirectErr> {
    let b = two(b)?;
    HagerZhangLineSearch::new()
        .with_delta_sigma(delta, sigma)
        .and_then(|l| l.with_epsilon(eps))
        .and_then(|l| l.with_theta(theta))
        .and_then(|l| l.with_gamma(gamma))
        .and_then(|l| l.with_eta(eta))
        .and_then(|l| l.with_bounds(b.0, b.1))
        .map_err(ce)
}

/// What the numerical library does when it is configured with the values of `c` directly.
pub fn direct(c: &LC, p: &Prob, x0: &[f64]) -> Direct {
    let start = Array1::from(x0.to_vec());
    macro_rules! with_line {
        ($ls:expr, |$l:ident| $body:expr) => {
            match $ls {
                LS::Mt { c1, c2, wt, b } => {
                    let $l = more_thuente(c1.0, c2.0, wt.0, b)?;
                    $body
                }
                LS::Hz { delta, sigma, eps, theta, gamma, eta, b } => {
                    let $l = hager_zhang(delta.0, sigma.0, eps.0, theta.0, gamma.0, eta.0, b)?;
                    $body
                }
            }
        };
    }
    match c {
        LC::Cobyla { max_iter, step, fr, fa, xr, xa } => {
            if !step.0.is_finite() || step.0 == 0.0 {
                return Err(DirectErr::Config("step".into()));
            }
            if !xa.is_empty() && xa.len() != x0.len() {
                return Err(DirectErr::Config("xtol_abs".into()));
            }
            let q = p.clone();
            let f = move |x: &[f64], _: &mut ()| q.objective(&Array1::from(x.to_vec())).unwrap_or(f64::INFINITY);
            let b: Vec<(f64, f64)> = (0..x0.len()).map(|i| (p.spec.lo[i], p.spec.hi(i))).collect();
            match cobyla::minimize(
                f,
                x0,
                &b,
                &p.constraints(),
                (),
                (*max_iter).min(i32::MAX as u64) as usize,
                cobyla::RhoBeg::All(step.0),
                Some(cobyla::StopTols {
                    ftol_rel: fr.0,
                    ftol_abs: fa.0,
                    xtol_rel: xr.0,
                    xtol_abs: xa.iter().map(|x| x.0).collect(),
                }),
            ) {
                Ok((_, x, v)) => Ok((x, v)),
                Err((s, _, _)) => Err(DirectErr::Run(format!("{s:?}"))),
            }
        }
        LC::Lbfgs { max_iter, tg, tc, hist, l1, ls } => with_line!(ls, |l| {
            // the history never holds more entries than there are iterations
            let m = (*hist).min(usize::try_from(*max_iter).unwrap_or(usize::MAX));
            let mut s: LBFGS<_, Ga, Ga, f64> =
                LBFGS::new(l, m).with_tolerance_cost(tc.0).and_then(|s| s.with_tolerance_grad(tg.0)).map_err(ce)?;
            if let Some(k) = l1 {
                s = s.with_l1_regularization(k.0).map_err(ce)?;
            }
            exec::<_, Ga, ()>(s, p, Some(start), *max_iter)
        }),
        LC::Nm { max_iter, delta, sd, alpha, gamma, rho, sigma } => {
            let mut simplex = vec![start.clone()];
            for i in 0..x0.len() {
                let mut v = start.clone();
                v[i] += delta.0;
                simplex.push(v);
            }
            let s: NelderMead<Ga, f64> = NelderMead::new(simplex)
                .with_sd_tolerance(sd.0)
                .and_then(|s| s.with_alpha(alpha.0))
                .and_then(|s| s.with_gamma(gamma.0))
                .and_then(|s| s.with_rho(rho.0))
                .and_then(|s| s.with_sigma(sigma.0))
                .map_err(ce)?;
            exec::<_, (), ()>(s, p, None, *max_iter)
        }
        LC::Sd { max_iter, ls } => {
            with_line!(ls, |l| exec::<_, Ga, ()>(SteepestDescent::new(l), p, Some(start), *max_iter))
        }
        LC::Tr { max_iter, steihaug, radius, max_radius, eta } => {
            macro_rules! tr {
                ($sub:expr) => {{
                    let s = TrustRegion::new($sub)
                        .with_radius(radius.0)
                        .and_then(|s| s.with_max_radius(max_radius.0))
                        .and_then(|s| s.with_eta(eta.0))
                        .map_err(ce)?;
                    exec::<_, Ga, Array2<f64>>(s, p, Some(start), *max_iter)
                }};
            }
            if *steihaug { tr!(Steihaug::new()) } else { tr!(CauchyPoint::new()) }
        }
        LC::Nc { max_iter, curv, tol, ls } => with_line!(ls, |l| {
            let s = NewtonCG::new(l).with_curvature_threshold(curv.0).with_tolerance(tol.0).map_err(ce)?;
            exec::<_, Ga, Array2<f64>>(s, p, Some(start), *max_iter)
        }),
    }
}

// ---- strategies -------------------------------------------------------------------------------
fn n(v: impl Strategy<Value = f64> + 'static) -> BoxedStrategy<N> {
    v.prop_map(N).boxed()
}
/// uniform in (a, b) on a grid that avoids the ends
pub fn within(a: f64, b: f64) -> BoxedStrategy<N> {
    n((1u32..400).prop_map(move |k| a + (b - a) * k as f64 / 400.0))
}
fn log10(a: i32, b: i32) -> BoxedStrategy<N> {
    n((a * 4..=b * 4, 0u32..10).prop_map(|(e, m)| 10f64.powf(e as f64 / 4.0) * (1.0 + m as f64 / 17.0)))
}
/// values around and beyond every documented range
pub fn odd() -> BoxedStrategy<N> {
    prop_oneof![
        Just(0.0),
        Just(-0.0),
        Just(1.0),
        Just(-1.0),
        Just(0.5),
        Just(0.25),
        Just(2.0),
        Just(1.0 - f64::EPSILON / 2.0),
        Just(1.0 + f64::EPSILON),
        Just(f64::MIN_POSITIVE),
        Just(-1e-300),
        Just(5e-324),
        Just(1e300),
        Just(f64::MAX),
        Just(f64::INFINITY),
        Just(f64::NEG_INFINITY),
        Just(f64::NAN),
        Just(-f64::NAN),
    ]
    .prop_map(N)
    .boxed()
}

pub fn ls_valid() -> BoxedStrategy<LS> {
    prop_oneof![
        1 => (log10(-6, -1), within(0.15, 0.99), prop_oneof![log10(-12, -1), Just(N(0.0))],
              prop_oneof![2 => Just((1.5e-8, f64::INFINITY)), 1 => Just((0.0, 10.0)), 1 => Just((1e-3, 2.0)), 1 => Just((1e-2, 0.7))])
            .prop_map(|(c1, c2, wt, b)| LS::Mt { c1, c2, wt, b: vec![N(b.0), N(b.1)] }),
        1 => (within(0.02, 0.3), within(0.3, 0.98), log10(-8, -1), within(0.1, 0.9), within(0.2, 0.95), log10(-4, 0),
              prop_oneof![2 => Just((2.3e-16, 1e5)), 1 => Just((0.0, 10.0)), 1 => Just((1e-4, 5.0))])
            .prop_map(|(delta, sigma, eps, theta, gamma, eta, b)| LS::Hz { delta, sigma, eps, theta, gamma, eta, b: vec![N(b.0), N(b.1)] }),
    ]
    .boxed()
}
fn iters() -> BoxedStrategy<u64> {
    prop_oneof![1 => Just(1u64), 1 => Just(2), 2 => 3u64..20, 2 => Just(40), 1 => Just(150)].boxed()
}
pub fn lc_valid(dim: usize, smooth: bool) -> BoxedStrategy<LC> {
    let cob = (
        prop_oneof![1 => 1u64..12, 3 => 12u64..120, 1 => Just(400)],
        within(0.02, 2.0),
        prop_oneof![1 => Just(N(0.0)), 2 => log10(-9, -2)],
        prop_oneof![1 => Just(N(0.0)), 2 => log10(-9, -2)],
        prop_oneof![1 => Just(N(0.0)), 2 => log10(-9, -2)],
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(log10(-8, -1), dim)],
    )
        .prop_map(|(max_iter, step, fr, fa, xr, xa)| LC::Cobyla { max_iter, step, fr, fa, xr, xa })
        .boxed();
    let nm = (
        iters(),
        prop_oneof![within(0.01, 0.8), within(-0.5, 0.0)],
        log10(-14, -1),
        (within(0.5, 1.5), within(1.6, 3.0), within(0.1, 0.5), within(0.1, 1.0)),
    )
        .prop_map(|(max_iter, delta, sd, (alpha, gamma, rho, sigma))| LC::Nm { max_iter, delta, sd, alpha, gamma, rho, sigma })
        .boxed();
    if !smooth {
        return prop_oneof![2 => cob, 1 => nm].boxed();
    }
    prop_oneof![
        2 => cob,
        2 => nm,
        3 => (iters(), prop_oneof![log10(-10, -1), Just(N(0.0))], prop_oneof![log10(-16, -1), Just(N(0.0))], prop_oneof![1 => 1usize..4, 1 => 4usize..20],
              prop_oneof![2 => Just(None), 1 => within(0.001, 2.0).prop_map(Some)], ls_valid())
            .prop_map(|(max_iter, tg, tc, hist, l1, ls)| LC::Lbfgs { max_iter, tg, tc, hist, l1, ls }),
        2 => (iters(), ls_valid()).prop_map(|(max_iter, ls)| LC::Sd { max_iter, ls }),
        2 => (iters(), any::<bool>(), log10(-2, 1), log10(-1, 2), prop_oneof![4 => within(0.0, 0.25), 1 => Just(N(0.0))])
            .prop_map(|(max_iter, steihaug, radius, max_radius, eta)| LC::Tr { max_iter, steihaug, radius, max_radius, eta }),
        2 => (iters(), prop_oneof![2 => Just(N(0.0)), 1 => within(0.0, 5.0)], log10(-9, -1), ls_valid())
            .prop_map(|(max_iter, curv, tol, ls)| LC::Nc { max_iter, curv, tol, ls }),
    ]
    .boxed()
}

/// a valid configuration with some values replaced by values around or beyond their range
pub fn lc_odd(dim: usize) -> BoxedStrategy<LC> {
    (
        lc_valid(dim, true),
        prop::collection::vec((0usize..12, odd()), 0..3),
        prop_oneof![6 => Just(None), 1 => Just(Some(0u64)), 1 => Just(Some(u64::MAX)), 1 => Just(Some((1u64 << 32) + 5))],
        prop_oneof![6 => Just(None), 1 => Just(Some(0usize)), 1 => Just(Some(usize::MAX))],
        prop_oneof![5 => Just(None), 1 => (0usize..5).prop_map(Some)],
    )
        .prop_map(|(mut c, edits, it, h, blen)| {
            let mut it = it;
            let mut v: Vec<&mut N> = vec![];
            let mut vb: Option<&mut Vec<N>> = None;
            fn line<'a>(ls: &'a mut LS, v: &mut Vec<&'a mut N>, vb: &mut Option<&'a mut Vec<N>>) {
                match ls {
                    LS::Mt { c1, c2, wt, b } => {
                        v.extend([c1, c2, wt]);
                        *vb = Some(b);
                    }
                    LS::Hz { delta, sigma, eps, theta, gamma, eta, b } => {
                        v.extend([delta, sigma, eps, theta, gamma, eta]);
                        *vb = Some(b);
                    }
                }
            }
            let newton = matches!(c, LC::Nc { .. });
            // COBYLA without an effective limit ends only by its tolerances
            let mut edits = edits;
            if let (LC::Cobyla { fr, fa, xr, xa, .. }, Some(_)) = (&mut c, it) {
                (*fr, *fa, *xr) = (N(1e-2), N(1e-2), N(1e-2));
                xa.clear();
                edits.clear();
            }
            let m: &mut u64 = match &mut c {
                LC::Cobyla { max_iter, step, fr, fa, xr, xa } => {
                    v.extend([step, fr, fa, xr]);
                    vb = Some(xa);
                    max_iter
                }
                LC::Lbfgs { max_iter, tg, tc, hist, l1, ls } => {
                    v.extend([tg, tc]);
                    if let Some(k) = l1 {
                        v.push(k);
                    }
                    line(ls, &mut v, &mut vb);
                    if let Some(x) = h {
                        *hist = x;
                        it = it.map(|i| i.min(1 << 10));
                    }
                    max_iter
                }
                LC::Nm { max_iter, delta, sd, alpha, gamma, rho, sigma } => {
                    v.extend([delta, sd, alpha, gamma, rho, sigma]);
                    max_iter
                }
                LC::Sd { max_iter, ls } => {
                    line(ls, &mut v, &mut vb);
                    max_iter
                }
                LC::Tr { max_iter, radius, max_radius, eta, .. } => {
                    v.extend([radius, max_radius, eta]);
                    max_iter
                }
                LC::Nc { max_iter, tol, ls, .. } => {
                    v.push(tol);
                    line(ls, &mut v, &mut vb);
                    max_iter
                }
            };
            if let (Some(i), false) = (it, newton) {
                *m = i;
            }
            if let (Some(b), Some(l)) = (&mut vb, blen) {
                b.resize(l, N(0.5));
            }
            if let Some(b) = vb {
                v.extend(b.iter_mut());
            }
            let k = v.len();
            for (i, x) in edits {
                if k > 0 {
                    *v[i % k] = x;
                }
            }
            // (nor does it end with steps whose squares overflow)
            if let LC::Cobyla { step, .. } = &mut c {
                if step.0.is_finite() && step.0.abs() > 1e6 {
                    step.0 = 1e6 * step.0.signum();
                }
            }
            c
        })
        .boxed()
}
