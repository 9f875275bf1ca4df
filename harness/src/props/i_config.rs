//! C20 (settings and points: refused or accepted), C23 (local solvers do what they are told)
use super::common::*;
use crate::ck::flat_cfg;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::lc::*;
use crate::prob::*;
use globalsearch::filters::FiltersErrors;
use globalsearch::local_solver::runner::{LocalSolver, LocalSolverError};
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::{OQNLP, OQNLPError};
use globalsearch::problem::Problem;
use globalsearch::scatter_search::{ScatterSearch, ScatterSearchError};
use globalsearch::types::{CheckpointConfig, EvaluationError, OQNLPParams};
use ndarray::{Array1, Array2, s};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---- C20 ---------------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PCase {
    pop: usize,
    iters: usize,
    wait: usize,
    tf: N,
    df: N,
    seed: u64,
    dim: usize,
    parallel: bool,
}
fn odd_or(v: Vec<f64>) -> BoxedStrategy<N> {
    prop_oneof![2 => prop::sample::select(v).prop_map(N), 1 => odd()].boxed()
}
fn pcase() -> BoxedStrategy<PCase> {
    let sizes = || prop_oneof![3 => 0usize..6, 3 => 0usize..20, 1 => Just(usize::MAX), 1 => Just(usize::MAX - 1)];
    (sizes(), sizes(), sizes(), odd_or(vec![0.2, 1.0, 3.0]), odd_or(vec![0.0, 0.5, 2.0]), seed(), 1usize..4, any::<bool>())
        .prop_map(|(pop, iters, wait, tf, df, seed, dim, parallel)| PCase { pop, iters, wait, tf, df, seed, dim, parallel })
        .boxed()
}
pub fn quick_solver(max_iter: u64) -> Solver {
    Solver::Cobyla { max_iter, step: 0.3, ftol_rel: 1e-4, ftol_abs: 1e-6, xtol_rel: 0.0, xtol_abs: vec![] }
}
fn simple_prob(dim: usize) -> ProbSpec {
    ProbSpec {
        kind: Kind::DoubleWell,
        lo: vec![-2.0; dim],
        width: vec![4.0; dim],
        center: vec![0.6; dim],
        scale: 1.0,
        offset: 0.0,
        tilt: 0.05,
        freq: 3.0,
        cons: vec![],
        grad: true,
        hess: true,
        hole: None,
        fault: None,
    }
}
/// the violated rules and whether `e` reports one of them with its values
fn param_rules(c: &PCase) -> Vec<&'static str> {
    let mut v = vec![];
    if c.pop < 3 {
        v.push("population");
    }
    if c.iters > c.pop {
        v.push("iterations");
    }
    if !(c.tf.0 > 0.0) {
        v.push("threshold factor");
    }
    if !(c.df.0 >= 0.0) {
        v.push("distance factor");
    }
    v
}
fn check_param_error(c: &PCase, e: &OQNLPError) -> Result<&'static str, String> {
    let bad = param_rules(c);
    let hit = match e {
        OQNLPError::InvalidPopulationSize(n) => (*n == c.pop).then_some("population"),
        OQNLPError::InvalidIterations(i, n) => (*i == c.iters && *n == c.pop).then_some("iterations"),
        OQNLPError::InvalidThresholdFactor(t) => (t.to_bits() == c.tf.0.to_bits() || (t.is_nan() && c.tf.0.is_nan())).then_some("threshold factor"),
        OQNLPError::DistanceFilterError(FiltersErrors::NegativeDistanceFactor { value }) => {
            (value.to_bits() == c.df.0.to_bits() || (value.is_nan() && c.df.0.is_nan())).then_some("distance factor")
        }
        _ => None,
    };
    let Some(h) = hit else { return Err(format!("the error is `{e}`, which names none of the offending values; violated: {bad:?}")) };
    ensure!(bad.contains(&h), "the error `{e}` complains about the {h}, which is in its range; violated: {bad:?}");
    Ok(h)
}
fn oparams(c: &PCase) -> OQNLPParams {
    let (t, cfg) = quick_solver(20).build();
    OQNLPParams {
        iterations: c.iters,
        population_size: c.pop,
        wait_cycle: c.wait,
        threshold_factor: c.tf.0,
        distance_factor: c.df.0,
        local_solver_type: t,
        local_solver_config: cfg,
        seed: c.seed,
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BCase {
    /// per dimension: kind of row and a position
    rows: Vec<(u8, i32)>,
    pop: usize,
    seed: u64,
    parallel: bool,
}
fn row(k: u8, a: i32) -> (f64, f64) {
    let a = a as f64 / 4.0;
    match k {
        0 => (a, a + 3.0),
        1 => (a, a + 1e-9),
        2 => (a, a),
        3 => (a, a - 1.0),
        4 => (f64::NAN, a),
        5 => (a, f64::NAN),
        6 => (f64::NEG_INFINITY, a),
        7 => (a, f64::INFINITY),
        8 => (f64::INFINITY, f64::NEG_INFINITY),
        9 => (f64::NAN, f64::NAN),
        10 => (a, a - 1e-12),
        11 => (f64::INFINITY, f64::INFINITY),
        12 => (-f64::MAX, f64::MAX),
        13 => (-1e308, 0.9e308),
        // the sum of the two overflows
        14 if a > 0.0 => (1e308, f64::MAX),
        14 => (-f64::MAX, -1e308),
        // only a few numbers wide, at several magnitudes
        _ => {
            let lo = match k % 5 {
                0 => a,
                1 => 1e16 * (1.0 + a.abs()),
                2 => a * 1e-300,
                3 => -1e300 * (2.0 + a.abs()),
                _ => 1.0 - f64::EPSILON / 2.0,
            };
            let mut hi = lo;
            for _ in 0..1 + k % 3 {
                hi = hi.next_up();
            }
            (lo, hi)
        }
    }
}
#[derive(Clone)]
struct Boxed {
    b: Array2<f64>,
}
impl Problem for Boxed {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        Ok(x.iter().map(|v| (v * 0.37).sin() + 1e-3 * v.abs().min(1e100)).sum())
    }
    fn variable_bounds(&self) -> Array2<f64> {
        self.b.clone()
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PtCase {
    prob: ProbSpec,
    /// coordinates: (kind, unit position)
    pts: Vec<Vec<(u8, f64)>>,
    cols: usize,
    layout: u8,
    pop: usize,
    seed: u64,
    parallel: bool,
    batch: Option<usize>,
}
fn coord(lo: f64, hi: f64, k: u8, u: f64) -> f64 {
    match k {
        0..=11 => (lo + u * (hi - lo)).clamp(lo, hi),
        12 => lo,
        13 => hi,
        14 => lo.next_down(),
        15 => hi.next_up(),
        16 => f64::NAN,
        17 => -f64::NAN,
        18 => f64::INFINITY,
        19 => f64::NEG_INFINITY,
        20 => lo - 1.0,
        _ => hi + (hi - lo),
    }
}
/// the same matrix in another memory layout
fn relayout(a: &Array2<f64>, how: u8) -> Array2<f64> {
    let (n, m) = a.dim();
    match how {
        1 => {
            let mut t = Array2::zeros((m, n));
            for ((i, j), v) in a.indexed_iter() {
                t[[j, i]] = *v;
            }
            t.reversed_axes()
        }
        2 => {
            let mut t = a.clone();
            for ((i, j), v) in a.indexed_iter() {
                t[[i, m - 1 - j]] = *v;
            }
            t.slice_move(s![.., ..;-1])
        }
        3 => {
            let mut t = a.clone();
            for ((i, j), v) in a.indexed_iter() {
                t[[n - 1 - i, m - 1 - j]] = *v;
            }
            t.slice_move(s![..;-1, ..;-1])
        }
        4 => {
            let mut t = Array2::from_elem((2 * n, 2 * m), 77.0);
            for ((i, j), v) in a.indexed_iter() {
                t[[2 * i, 2 * j]] = *v;
            }
            t.slice_move(s![..;2, ..;2])
        }
        _ => a.clone(),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SolCase {
    prob: ProbSpec,
    lc: LC,
    /// solver type to use instead of the configuration's
    ty: Option<usize>,
    start: Vec<f64>,
    track: bool,
    whole: bool,
}
fn config_error_of(e: &LocalSolverError) -> Option<usize> {
    Some(match e {
        LocalSolverError::InvalidCOBYLAConfig { .. } => 0,
        LocalSolverError::InvalidLBFGSConfig { .. } => 1,
        LocalSolverError::InvalidNelderMeadConfig { .. } => 2,
        LocalSolverError::InvalidSteepestDescentConfig { .. } => 3,
        LocalSolverError::InvalidTrustRegionConfig { .. } => 4,
        LocalSolverError::InvalidNewtonCG { .. } => 5,
        _ => return None,
    })
}
const NAMES: [&str; 6] = ["COBYLA", "L-BFGS", "Nelder-Mead", "steepest descent", "trust region", "Newton-CG"];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SetCase {
    run: RunCase,
    abs: Option<N>,
    rel: Option<N>,
    target: Option<N>,
    time: Option<N>,
    batch: Option<usize>,
    save: Option<usize>,
    callback: Option<usize>,
    resume: Option<PCase>,
    by_path: bool,
}

pub fn c20(ctx: &Ctx) {
    ctx.assume("a constructor is expected to report one of the violated rules, not a particular one when several are violated");
    ctx.assume("bounds whose difference overflows may be refused or accepted");
    ctx.sub(
        "params",
        "OQNLP::new with generated parameters; non-trivial when exactly one rule is violated or a boundary value is accepted",
        ctx.n(60000, 1500000),
        pcase,
        |c: &PCase| {
            let p = Prob::new(&simple_prob(c.dim));
            let bad = param_rules(c);
            let mut info = Info::nt(bad.len() == 1);
            match OQNLP::new(p.clone(), oparams(c)) {
                Err(e) => {
                    ensure!(!bad.is_empty(), "parameters within their documented ranges are refused: {e}");
                    let h = check_param_error(c, &e)?;
                    info = info.label(true, h);
                }
                Ok(o) => {
                    ensure!(bad.is_empty(), "accepted although these are out of range: {bad:?}");
                    if c.pop <= 20 {
                        let mut o = o.parallel(c.parallel);
                        info.nontrivial = true;
                        info = info.label(true, "accepted");
                        match o.run() {
                            Ok(s) => ensure!(s.len() > 0, "empty solution set"),
                            Err(OQNLPError::LocalSolverError(_)) => {}
                            Err(e) => return Err(format!("valid parameters, but the run fails: {e}")),
                        }
                    }
                }
            }
            Ok(info)
        },
    );
    ctx.sub(
        "bounds",
        "a run with generated bounds; non-trivial when some dimension is invalid or of extreme width (overflowing, or at most three floating-point numbers)",
        ctx.n(12000, 300000),
        || {
            (
                prop::collection::vec((prop_oneof![6 => 0u8..2, 2 => 2u8..12, 1 => 12u8..15, 2 => 15u8..45], -20i32..20), 1..5),
                3usize..9,
                seed(),
                any::<bool>(),
            )
                .prop_map(|(rows, pop, seed, parallel)| BCase { rows, pop, seed, parallel })
        },
        |c: &BCase| {
            let d = c.rows.len();
            let b = Array2::from_shape_fn((d, 2), |(i, j)| {
                let r = row(c.rows[i].0, c.rows[i].1);
                if j == 0 { r.0 } else { r.1 }
            });
            let bad: Vec<usize> = (0..d)
                .filter(|&i| !(b[[i, 0]].is_finite() && b[[i, 1]].is_finite() && b[[i, 0]] < b[[i, 1]]))
                .collect();
            let wide: Vec<usize> = (0..d).filter(|&i| !bad.contains(&i) && !(b[[i, 1]] - b[[i, 0]]).is_finite()).collect();
            let (t, cfg) = quick_solver(20).build();
            let params = OQNLPParams {
                iterations: c.pop,
                population_size: c.pop,
                seed: c.seed,
                local_solver_type: t,
                local_solver_config: cfg,
                ..OQNLPParams::default()
            };
            let named = |e: &ScatterSearchError| -> Result<(), String> {
                let ScatterSearchError::InvalidBounds { dimension, lower, upper } = e else {
                    return Err(format!("the error is `{e}`, bounds are {b:?}"));
                };
                ensure!(
                    bad.contains(dimension) || wide.contains(dimension),
                    "the error names dimension {dimension}, whose bounds are fine: {b:?}"
                );
                ensure!(
                    same_nan(*lower, b[[*dimension, 0]]) && same_nan(*upper, b[[*dimension, 1]]),
                    "the error names bounds {lower:?}..{upper:?} for dimension {dimension} of {b:?}"
                );
                Ok(())
            };
            let prob = Boxed { b: b.clone() };
            match ScatterSearch::new(prob.clone(), params.clone()) {
                Err(e) => named(&e)?,
                Ok(_) => ensure!(bad.is_empty(), "Stage 1 accepts the bounds {b:?}"),
            }
            let mut o = OQNLP::new(prob, params).map_err(|e| format!("constructor: {e}"))?.parallel(c.parallel);
            match o.run() {
                Ok(s) => {
                    ensure!(bad.is_empty(), "the bounds {b:?} are accepted");
                    ensure!(s.len() > 0, "empty solution set");
                }
                Err(OQNLPError::ScatterSearchError(e)) | Err(OQNLPError::ScatterSearchRunError(e)) => named(&e)?,
                Err(OQNLPError::LocalSolverError(_)) if bad.is_empty() => {}
                Err(e) => return Err(format!("bounds {b:?}: {e}")),
            }
            let narrow = (0..d).any(|i| c.rows[i].0 >= 15);
            Ok(Info::nt(!bad.is_empty() || !wide.is_empty() || narrow).label(narrow && bad.is_empty() && wide.is_empty(), "narrow").label(!bad.is_empty(), "invalid").label(!wide.is_empty(), "overflowing width"))
        },
    );
    ctx.sub(
        "points",
        "custom points with odd coordinates, shapes and memory layouts; non-trivial when some point is refused, or the accepted points are laid out unusually and the run works on them",
        ctx.n(12000, 300000),
        || {
            (
                prob(POpt { max_dim: 3, cons: true, ..PLAIN }),
                prop::collection::vec(prop::collection::vec((prop_oneof![30 => 0u8..14, 1 => 14u8..22], frac()), 4), 0..6),
                prop_oneof![8 => Just(None), 1 => (0usize..5).prop_map(Some)],
                0u8..5,
                3usize..12,
                seed(),
                any::<bool>(),
                (prop_oneof![Just(None), (1usize..5).prop_map(Some)], prop_oneof![12 => Just(0usize), 1 => 10usize..300]),
            )
                .prop_map(|(prob, mut pts, cols, layout, pop, seed, parallel, (batch, many))| {
                    // what matters may come after many ordinary points
                    let mut front: Vec<Vec<(u8, f64)>> = (0..many).map(|i| (0..4).map(|j| (((i + j) % 14) as u8, ((i * 7 + j * 3) % 97) as f64 / 97.0)).collect()).collect();
                    front.append(&mut pts);
                    let pts = front;
                    let cols = cols.unwrap_or(prob.dim());
                    PtCase { prob, pts, cols, layout, pop, seed, parallel, batch }
                })
        },
        |c: &PtCase| {
            let (d, k) = (c.prob.dim(), c.pts.len());
            let a = Array2::from_shape_fn((k, c.cols), |(i, j)| {
                let jj = j.min(d - 1);
                coord(c.prob.lo[jj], c.prob.hi(jj), c.pts[i][j % 4].0, c.pts[i][j % 4].1)
            });
            let outside = (0..k).find(|&i| (0..c.cols.min(d)).any(|j| !(a[[i, j]] >= c.prob.lo[j] && a[[i, j]] <= c.prob.hi(j))));
            let (t, cfg) = quick_solver(25).build();
            let mk = |p: &Prob| {
                let params = OQNLPParams {
                    iterations: c.pop,
                    population_size: c.pop,
                    wait_cycle: 2,
                    threshold_factor: 0.5,
                    distance_factor: 0.1,
                    seed: c.seed,
                    local_solver_type: t.clone(),
                    local_solver_config: cfg.clone(),
                };
                let mut o = OQNLP::new(p.clone(), params).expect("valid").parallel(c.parallel);
                if let Some(b) = c.batch {
                    o = o.batch_iterations(b);
                }
                o
            };
            let p = Prob::new(&c.prob);
            match mk(&p).with_points(relayout(&a, c.layout)) {
                Err(OQNLPError::InvalidCustomPointsDimension { point_index, expected, got }) => {
                    ensure!(c.cols != d, "points of the right dimension {d} are refused for their dimension");
                    ensure!(
                        (k == 0 || point_index == 0) && expected == d && got == c.cols,
                        "error names point {point_index}, expected {expected}, got {got}; it is {k} points with {} coordinates for {d} variables",
                        c.cols
                    );
                    Ok(Info::nt(true).label(true, "wrong dimension"))
                }
                Err(OQNLPError::CustomPointOutOfBounds { index }) => {
                    ensure!(c.cols == d, "points of the wrong dimension reported as out of bounds");
                    ensure!(Some(index) == outside, "the error names point {index}, the first point outside is {outside:?}: {a:?}");
                    Ok(Info::nt(true).label(true, "outside"))
                }
                Err(e) => Err(format!("with_points: {e}")),
                Ok(mut o) => {
                    ensure!(c.cols == d || k == 0, "points with {} coordinates accepted for {d} variables", c.cols);
                    ensure!(outside.is_none(), "point {outside:?} outside the bounds accepted: {a:?}");
                    let r = o.run().map(|s| set_vec(&s)).map_err(|e| e.to_string());
                    if k == 0 || c.layout == 0 {
                        return Ok(Info::nt(false));
                    }
                    let q = Prob::new(&c.prob);
                    let want = mk(&q).with_points(a.clone()).map_err(|e| format!("the same points in standard layout: {e}"))?.run();
                    let want = want.map(|s| set_vec(&s)).map_err(|e| e.to_string());
                    match (&r, &want) {
                        (Ok(x), Ok(y)) => ensure!(same_pts(x, y), "the memory layout of the points changes the result: {} vs {}", show(x), show(y)),
                        (Err(x), Err(y)) => ensure!(x == y, "errors differ: {x} / {y}"),
                        _ => return Err(format!("the memory layout of the points changes the outcome: {r:?} vs {want:?}")),
                    }
                    Ok(Info::nt(true).label(true, "layout").label(!c.prob.cons.is_empty(), "layout, constrained"))
                }
            }
        },
    );
    ctx.sub(
        "solver",
        "a local search with configuration values around and beyond their ranges, against what the numerical library itself says about the same values; non-trivial when it is refused or an unusual value is accepted",
        ctx.n(40000, 1000000),
        || {
            (prob(POpt { max_dim: 4, smooth: true, ..PLAIN }), 0usize..30)
                .prop_flat_map(|(p, cons)| {
                    let d = p.dim();
                    (Just(p), Just(cons), lc_odd(d), prop_oneof![12 => Just(None), 1 => (0usize..6).prop_map(Some)], prop::collection::vec(frac(), 4), any::<bool>(), prop_oneof![9 => Just(false), 1 => Just(true)])
                })
                .prop_map(|(prob, _, lc, ty, start, track, whole)| SolCase { prob, lc, ty, start, track, whole })
        },
        |c: &SolCase| {
            let mk = || {
                let p = Prob::new(&c.prob);
                p.log.limit.store(3000, std::sync::atomic::Ordering::Relaxed);
                p.log.strict.store(1, std::sync::atomic::Ordering::Relaxed);
                if c.lc.index() == 0 {
                    // a failing call does not end a COBYLA search, a panic does
                    p.log.panic_at.store(1000, std::sync::atomic::Ordering::Relaxed);
                }
                p
            };
            let x0 = unit_to_box(&c.prob, &c.start);
            let ty = c.ty.unwrap_or(c.lc.index());
            let p = mk();
            let got = no_panic(|| {
                let s = LocalSolver::new(p.clone(), types()[ty].clone(), c.lc.literal());
                if c.track {
                    s.solve_with_tracking(Array1::from(x0.clone()), true).map(|(s, _)| s)
                } else {
                    s.solve(Array1::from(x0.clone()))
                }
            });
            let got = match got {
                Ok(g) => g,
                Err(panic) => {
                    // a panic inside the numerical library for values it accepts itself
                    if ty == c.lc.index() {
                        let q = mk();
                        if no_panic(|| direct(&c.lc, &q, &x0)).is_err() {
                            return Ok(Info::nt(false).label(true, &format!("panics in the numerical library too: {}", panic.chars().take(150).collect::<String>())));
                        }
                    }
                    return Err(panic);
                }
            };
            let err = got.as_ref().err().and_then(config_error_of);
            if ty != c.lc.index() {
                ensure!(
                    err == Some(ty),
                    "a configuration of {} given to {} yields {got:?}",
                    NAMES[c.lc.index()],
                    NAMES[ty]
                );
                return Ok(Info::nt(true).label(true, "mismatch"));
            }
            let q = mk();
            let want = no_panic(|| direct(&c.lc, &q, &x0)).map_err(|e| format!("the solver configured directly goes on ({e}), the library returns {got:?}"))?;
            let label = format!("{}{}", c.lc.name(), c.lc.line());
            match (&want, err) {
                (Err(DirectErr::Config(w)), Some(k)) => {
                    ensure!(k == ty, "`{w}` is reported as a configuration error of {}, not of {}", NAMES[k], NAMES[ty]);
                }
                (Err(DirectErr::Config(w)), None) => return Err(format!("the solver refuses the settings ({w}), the library returns {got:?}")),
                (_, Some(_)) => return Err(format!("settings the solver accepts are refused: {got:?}")),
                _ => {}
            }
            if c.whole && err.is_some() {
                // the same settings in a whole optimization
                let params = OQNLPParams {
                    iterations: 4,
                    population_size: 4,
                    local_solver_type: types()[ty].clone(),
                    local_solver_config: c.lc.literal(),
                    ..OQNLPParams::default()
                };
                match OQNLP::new(mk(), params).and_then(|mut o| o.run()) {
                    Err(OQNLPError::LocalSolverError(e)) => {
                        ensure!(config_error_of(&e) == Some(ty), "the optimization reports `{e}` for settings {NAMES:?}[{ty}] refuses")
                    }
                    Err(e) => return Err(format!("the optimization reports `{e}` for settings the solver refuses")),
                    Ok(_) => return Err("the optimization succeeds with settings the solver refuses".into()),
                }
            }
            Ok(Info::nt(true).label(err.is_some(), &format!("refused {label}")).label(err.is_none(), &format!("accepted {label}")))
        },
    );
    ctx.sub(
        "settings",
        "runs with odd batch sizes, times, tolerances, targets, frequencies and parameters of a resumed run; non-trivial when at least two settings are odd",
        ctx.n(4000, 100000),
        || {
            let o = || prop_oneof![2 => Just(None), 1 => odd().prop_map(Some)];
            let u = || prop_oneof![2 => Just(None), 1 => prop_oneof![Just(0usize), Just(1), Just(2), Just(7), Just(1000), Just(usize::MAX)].prop_map(Some)];
            (
                run_case(ROpt { max_pop: 14, p: POpt { max_dim: 3, ..PLAIN }, ..RUN }),
                (o(), o(), o(), o()),
                (u(), u(), u()),
                prop_oneof![1 => Just(None), 1 => pcase().prop_map(Some)],
                any::<bool>(),
            )
                .prop_map(|(mut run, (abs, rel, target, time), (batch, save, callback), resume, by_path)| {
                    run.solver = quick_solver(15);
                    SetCase { run, abs, rel, target, time, batch, save, callback, resume, by_path }
                })
        },
        |c: &SetCase| {
            let dir = ctx.tmp();
            let p = Prob::new(&c.run.prob);
            let mk = |params: OQNLPParams, resume: bool| -> Result<OQNLP<Prob>, String> {
                let mut o = OQNLP::new(p.clone(), params).map_err(|e| e.to_string())?.parallel(c.run.parallel);
                if c.abs.is_some() || c.rel.is_some() {
                    o = o.with_tolerance(c.abs.map_or(1e-8, |x| x.0), c.rel.map_or(1e-6, |x| x.0));
                }
                if let Some(t) = c.target {
                    o = o.target_objective(t.0);
                }
                if let Some(t) = c.time {
                    o = o.max_time(t.0);
                }
                if let Some(b) = c.batch {
                    o = o.batch_iterations(b);
                }
                if let Some(k) = c.callback {
                    o = o.add_observer(Observer::new().with_stage1_tracking().with_stage2_tracking().with_timing().with_mode(ObserverMode::Both).with_callback(|_| {}).with_callback_frequency(k));
                }
                if c.run.excl {
                    o = o.exclude_out_of_bounds();
                }
                if c.save.is_some() || c.resume.is_some() {
                    o = o
                        .with_checkpointing(CheckpointConfig {
                            checkpoint_dir: dir.0.clone(),
                            checkpoint_name: "s".into(),
                            save_frequency: c.save.unwrap_or(2),
                            keep_all: true,
                            auto_resume: resume,
                        })
                        .map_err(|e| e.to_string())?;
                }
                Ok(o)
            };
            let odd = [c.abs.is_some(), c.rel.is_some(), c.target.is_some(), c.time.is_some(), c.batch.is_some(), c.save.is_some(), c.callback.is_some(), c.resume.is_some()];
            let r = mk(c.run.params(), false)?.run();
            if let Ok(s) = &r {
                ensure!(s.len() > 0, "empty solution set");
            }
            let mut info = Info::nt(odd.iter().filter(|x| **x).count() >= 2).label(r.is_ok(), "ok").label(r.is_err(), "error");
            if let Some(np) = &c.resume {
                let bad = param_rules(np);
                // (a population that is in range but too large to build)
                if np.pop > 40 && bad.iter().all(|b| *b == "distance factor") {
                    return Ok(info);
                }
                let mut o = mk(c.run.params(), false)?;
                let newest = std::fs::read_dir(&dir.0).ok().and_then(|d| d.flatten().map(|e| e.path()).max());
                let res = match (&newest, c.by_path) {
                    (Some(f), true) => o.resume_from_checkpoint_with_params(f, oparams(np)).map(|_| true),
                    _ => o.resume_with_modified_params(oparams(np)),
                };
                match res {
                    Err(e) => {
                        ensure!(!bad.is_empty(), "valid parameters of a resumed run are refused: {e}");
                        check_param_error(np, &e)?;
                        info = info.label(true, "resume refused");
                    }
                    Ok(found) => {
                        // without a checkpoint the parameters are not used
                        ensure!(bad.is_empty() || !found, "parameters of a resumed run accepted although these are out of range: {bad:?}");
                        let _ = o.run();
                        info = info.label(found, "resumed");
                    }
                }
            }
            Ok(info)
        },
    );
}
fn same_nan(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

// ---- C23 ---------------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DCase {
    prob: ProbSpec,
    lc: LC,
    start: Vec<f64>,
    how: u8,
}
fn smooth(k: Kind) -> bool {
    matches!(k, Kind::Quad | Kind::DoubleWell | Kind::Rastrigin | Kind::Cosine)
}

pub fn c23(ctx: &Ctx) {
    ctx.assume("a search cut off after 20000 calls is not compared (the numerical library itself would not end)");
    let dcase = || {
        prop_oneof![3 => prob(POpt { max_dim: 5, ..PLAIN }), 1 => prob(POpt { max_dim: 3, cons: true, ..PLAIN })]
            .prop_flat_map(|p| {
                let (d, sm) = (p.dim(), smooth(p.kind) && p.cons.is_empty());
                let lc = if p.cons.is_empty() {
                    lc_valid(d, sm)
                } else {
                    prop::strategy::Strategy::prop_filter(lc_valid(d, false), "constrained", |l| l.index() == 0).boxed()
                };
                (Just(p), lc, prop::collection::vec(frac(), 5), any::<u8>())
            })
            .prop_map(|(prob, lc, start, how)| DCase { prob, lc, start, how })
    };
    ctx.sub(
        "direct",
        "the same local search through the library and with the numerical library configured directly; non-trivial when it took more than three objective calls",
        ctx.n(60000, 2000000),
        dcase,
        |c: &DCase| {
            let mk = || {
                let p = Prob::new(&c.prob);
                p.log.limit.store(20000, std::sync::atomic::Ordering::Relaxed);
                p.log.strict.store(1, std::sync::atomic::Ordering::Relaxed);
                p
            };
            let x0 = unit_to_box(&c.prob, &c.start);
            let cfg = c.lc.built(c.how);
            let (p, q, q2) = (mk(), mk(), mk());
            let ls = LocalSolver::new(p.clone(), c.lc.ty(), cfg.clone());
            let got = ls.solve(Array1::from(x0.clone()));
            let want = direct(&c.lc, &q, &x0);
            if p.log.ranaway() || q.log.ranaway() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            // the points visited, in order
            let (a, b) = (p.log.points(), q.log.points());
            let extra = usize::from(c.lc.l1());
            ensure!(
                a.len() == b.len() || (a.len() > b.len() && a.len() <= b.len() + extra),
                "the library makes {} objective calls, the solver configured directly {}",
                a.len(),
                b.len()
            );
            for i in 0..b.len() {
                ensure!(
                    same_vec(&a[i].0, &b[i].0),
                    "call {i}: the library evaluates {:?}, the solver configured directly {:?}",
                    a[i].0,
                    b[i].0
                );
            }
            let cnt = |p: &Prob| (p.log.n_grad.load(std::sync::atomic::Ordering::SeqCst), p.log.n_hess.load(std::sync::atomic::Ordering::SeqCst));
            ensure!(cnt(&p) == cnt(&q), "gradient and Hessian calls: {:?} through the library, {:?} directly", cnt(&p), cnt(&q));
            match (&got, &want) {
                (Ok(s), Ok((x, f))) => {
                    ensure!(same_vec(s.point.as_slice().unwrap_or(&[]), x), "result {:?}, directly {x:?}", s.point);
                    // regularization is no part of the objective value
                    let f = if c.lc.l1() { c.prob.value(x) } else { *f };
                    ensure!(same(s.objective, f), "objective of the result {:?}, directly {f:?}", s.objective);
                }
                (Err(e), Err(d)) => ensure!(
                    config_error_of(e).is_some() == matches!(d, DirectErr::Config(_)),
                    "the library reports {e}, the solver configured directly {d:?}"
                ),
                _ => return Err(format!("the library returns {got:?}, the solver configured directly {want:?}")),
            }
            // counting evaluations changes nothing and counts every call; the solver keeps no state
            let ls2 = LocalSolver::new(q2.clone(), c.lc.ty(), cfg);
            let tracked = ls2.solve_with_tracking(Array1::from(x0.clone()), true);
            match (&got, &tracked) {
                (Ok(s), Ok((t, n))) => {
                    ensure!(same_vec(&s.point.to_vec(), &t.point.to_vec()) && same(s.objective, t.objective), "tracking changes the result: {s:?} / {t:?}");
                    ensure!(*n == q2.log.obj(), "{n} evaluations reported, {} made", q2.log.obj());
                    ensure!(q2.log.obj() == p.log.obj(), "tracking changes the number of calls");
                }
                (Err(a), Err(b)) => ensure!(a == b, "tracking changes the error: {a} / {b}"),
                _ => return Err(format!("tracking changes the outcome: {got:?} / {tracked:?}")),
            }
            let before = q2.log.obj();
            let again = ls2.solve_with_tracking(Array1::from(x0.clone()), true);
            if q2.log.ranaway() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            match (&tracked, &again) {
                (Ok((s, _)), Ok((t, n))) => {
                    ensure!(same_vec(&s.point.to_vec(), &t.point.to_vec()) && same(s.objective, t.objective), "a second search from the same point differs: {s:?} / {t:?}");
                    ensure!(*n == q2.log.obj() - before, "second search: {n} evaluations reported, {} made", q2.log.obj() - before);
                }
                (Err(a), Err(b)) => ensure!(a == b, "a second search from the same point fails differently: {a} / {b}"),
                _ => return Err("a second search from the same point has another outcome".into()),
            }
            Ok(Info::nt(a.len() > 3 && got.is_ok())
                .label(got.is_ok(), &format!("{}{}", c.lc.name(), c.lc.line()))
                .label(c.lc.l1() && got.is_ok(), "l1")
                .label(!c.prob.cons.is_empty(), "constrained")
                .label(got.is_err(), "both fail"))
        },
    );
    ctx.sub(
        "builders",
        "configurations built through the positional constructors and the setters in two orders, against the literal; non-trivial always",
        ctx.n(40000, 1000000),
        || (prop_oneof![lc_valid(3, true), lc_odd(3)], any::<u8>()),
        |(l, how): &(LC, u8)| {
            let (a, b) = (flat_cfg(&l.built(*how)), flat_cfg(&l.literal()));
            ensure!(a == b, "built configuration {} differs from the values given: {:?}", l.name(), diff(&a, &b));
            let cl = l.built(*how);
            let a = flat_cfg(&cl.clone());
            ensure!(a == b, "a copied configuration {} differs: {:?}", l.name(), diff(&a, &b));
            Ok(Info::nt(true).label(true, l.name()))
        },
    );
    ctx.sub(
        "run",
        "one run of the optimizer, whose first local search is compared with a direct one from the best candidate; non-trivial when the search made more than three calls",
        ctx.n(6000, 150000),
        || {
            (prob(POpt { max_dim: 4, ..PLAIN }).prop_flat_map(|p| {
                let l = lc_valid(p.dim(), smooth(p.kind));
                (Just(p), l)
            }), 3usize..20, seed(), any::<bool>())
                .prop_map(|((prob, lc), pop, seed, parallel)| (DCase { prob, lc, start: vec![], how: pop as u8 }, seed, parallel))
        },
        |(c, seed, parallel): &(DCase, u64, bool)| {
            let mk = || {
                let p = Prob::new(&c.prob);
                p.log.limit.store(40000, std::sync::atomic::Ordering::Relaxed);
                p.log.strict.store(1, std::sync::atomic::Ordering::Relaxed);
                p
            };
            let p = mk();
            let params = OQNLPParams {
                iterations: 0,
                population_size: c.how as usize,
                seed: *seed,
                local_solver_type: c.lc.ty(),
                local_solver_config: c.lc.literal(),
                ..OQNLPParams::default()
            };
            let (r0, best) = ScatterSearch::new(mk(), params.clone()).and_then(|s| s.parallel(*parallel).run()).map_err(|e| e.to_string())?;
            let _ = r0;
            let got = OQNLP::new(p.clone(), params).map_err(|e| e.to_string())?.parallel(*parallel).run();
            let q = mk();
            let want = direct(&c.lc, &q, best.as_slice().unwrap());
            if p.log.ranaway() || q.log.ranaway() {
                return Ok(Info::nt(false));
            }
            match (got, want) {
                (Ok(s), Ok((x, f))) => {
                    let f = if c.lc.l1() { c.prob.value(&x) } else { f };
                    let s = set_vec(&s);
                    ensure!(s.len() == 1 && same_vec(&s[0].0, &x) && same(s[0].1, f), "the first local search from {best:?} yields {}, directly {f:?}@{x:?}", show(&s));
                }
                (Err(_), Err(_)) => return Ok(Info::nt(false)),
                (g, w) => return Err(format!("the run returns {:?}, the first local search directly {w:?}", g.map(|s| set_vec(&s)).map_err(|e| e.to_string()))),
            }
            Ok(Info::nt(q.log.obj() > 3).label(true, c.lc.name()))
        },
    );
}
fn diff(a: &[(String, u64)], b: &[(String, u64)]) -> Vec<String> {
    a.iter()
        .zip(b)
        .filter(|(x, y)| x != y)
        .map(|(x, y)| format!("{}: {:?} instead of {} {:?}", x.0, f64::from_bits(x.1), y.0, f64::from_bits(y.1)))
        .collect()
}
