//! Reference for the Python checks: the Rust core on the problems the Python side generates.
//! One JSON case per line on stdin, one JSON answer per line on stdout. Floats are bit patterns.
use globalsearch::local_solver::builders::*;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::OQNLP;
use globalsearch::problem::Problem;
use globalsearch::types::{EvaluationError, LocalSolverType, OQNLPParams};
use ndarray::{Array1, Array2};
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone)]
struct P {
    kind: u64,
    lo: Vec<f64>,
    hi: Vec<f64>,
    a: Vec<f64>,
    c: Vec<f64>,
    cons: Vec<u64>,
    grad: bool,
    hess: bool,
    fail: u64,
    limit: u64,
    calls: Arc<AtomicU64>,
}
type C = fn(&[f64], &mut ()) -> f64;
fn k0(x: &[f64], _: &mut ()) -> f64 {
    x[0] - 0.25
}
fn k1(x: &[f64], _: &mut ()) -> f64 {
    1.5 - x[0] - x[x.len() - 1]
}
fn k2(x: &[f64], _: &mut ()) -> f64 {
    x[0] * x[0] - 0.09
}
fn k3(x: &[f64], _: &mut ()) -> f64 {
    let mut s = 0.0;
    for v in x {
        s += v * v;
    }
    4.0 - s
}
fn k4(x: &[f64], _: &mut ()) -> f64 {
    0.75 - x[x.len() - 1]
}
fn k5(_: &[f64], _: &mut ()) -> f64 {
    1.0
}
fn k6(x: &[f64], _: &mut ()) -> f64 {
    -x[0] * 0.5 - 40.0
}
const CONS: [C; 7] = [k0, k1, k2, k3, k4, k5, k6];

impl P {
    fn tick(&self) -> Result<(), EvaluationError> {
        if self.calls.fetch_add(1, Ordering::SeqCst) >= self.limit {
            return Err(EvaluationError::InvalidInput { reason: "limit".into() });
        }
        Ok(())
    }
    /// part of the box where the objective fails
    fn fails(&self, x: &[f64]) -> bool {
        let m = (self.lo[0] + self.hi[0]) / 2.0;
        match self.fail {
            1 => x[0] > m,
            2 => x[0] * x[0] > 1.0,
            _ => false,
        }
    }
}
impl Problem for P {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        self.tick()?;
        let x = x.to_vec();
        if self.fails(&x) {
            return Err(EvaluationError::InvalidInput { reason: "fails here".into() });
        }
        let d = x.len();
        let mut s = 0.0;
        for i in 0..d {
            let t = x[i] - self.c[i];
            let a = self.a[i];
            let v = match self.kind {
                0 => a * (t * t),
                1 => {
                    let u = t * t - 1.0;
                    a * (u * u) + 0.1 * t
                }
                2 => a * t.abs(),
                _ => a * (t * t) + (x[i] * x[(i + 1) % d]) * 0.25,
            };
            s += v;
        }
        Ok(s)
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        if !self.grad {
            return Err(EvaluationError::GradientNotImplemented);
        }
        self.tick()?;
        let x = x.to_vec();
        let d = x.len();
        Ok((0..d)
            .map(|i| {
                let t = x[i] - self.c[i];
                let a = self.a[i];
                match self.kind {
                    0 => 2.0 * a * t,
                    1 => a * (4.0 * ((t * t - 1.0) * t)) + 0.1,
                    2 => a * (if t > 0.0 { 1.0 } else if t < 0.0 { -1.0 } else { 0.0 }),
                    _ => 2.0 * a * t + 0.25 * (x[(i + 1) % d] + x[(i + d - 1) % d]),
                }
            })
            .collect())
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        if !self.hess {
            return Err(EvaluationError::HessianNotImplemented);
        }
        self.tick()?;
        let d = x.len();
        let mut h = Array2::zeros((d, d));
        for i in 0..d {
            let t = x[i] - self.c[i];
            let a = self.a[i];
            h[[i, i]] += match self.kind {
                0 => 2.0 * a,
                1 => a * (12.0 * (t * t) - 4.0),
                2 => 0.0,
                _ => 2.0 * a,
            };
            if self.kind == 3 {
                let j = (i + 1) % d;
                h[[i, j]] += 0.25;
                h[[j, i]] += 0.25;
            }
        }
        Ok(h)
    }
    fn variable_bounds(&self) -> Array2<f64> {
        Array2::from_shape_fn((self.lo.len(), 2), |(i, j)| if j == 0 { self.lo[i] } else { self.hi[i] })
    }
    fn constraints(&self) -> Vec<C> {
        self.cons.iter().map(|&k| CONS[k as usize]).collect()
    }
}

fn f(v: &Value) -> f64 {
    f64::from_bits(v.as_u64().expect("bits"))
}
fn fs(v: &Value) -> Vec<f64> {
    v.as_array().expect("array").iter().map(f).collect()
}
fn opt(v: &Value) -> Option<&Value> {
    if v.is_null() { None } else { Some(v) }
}
fn bits(v: &[f64]) -> Value {
    json!(v.iter().map(|x| x.to_bits()).collect::<Vec<_>>())
}

fn line(v: &Value) -> LineSearchParams {
    let c = &v["cfg"];
    let b = |d: Array1<f64>| opt(&c["bounds"]).map_or(d, |b| Array1::from(fs(b)));
    let d = Array1::from(vec![f64::EPSILON.sqrt(), f64::INFINITY]);
    macro_rules! set { ($b:ident, $($n:ident),*) => { $( if let Some(x) = opt(&c[stringify!($n)]) { $b = $b.$n(f(x)); } )* } }
    if v["name"] == "hz" {
        let mut x = HagerZhangBuilder::default();
        set!(x, delta, sigma, epsilon, theta, gamma, eta);
        x.bounds(b(d)).build()
    } else {
        let mut x = MoreThuenteBuilder::default();
        set!(x, c1, c2, width_tolerance);
        x.bounds(b(d)).build()
    }
}
fn solver(v: &Value) -> (LocalSolverType, LocalSolverConfig) {
    let t = LocalSolverType::from_string(v["name"].as_str().unwrap_or("cobyla")).expect("solver name");
    let c = &v["cfg"];
    macro_rules! set { ($b:ident, $($n:ident),*) => { $( if let Some(x) = opt(&c[stringify!($n)]) { $b = $b.$n(f(x)); } )* } }
    macro_rules! int { ($b:ident, $n:ident) => { if let Some(x) = opt(&c[stringify!($n)]) { $b = $b.$n(x.as_u64().unwrap() as _); } } }
    macro_rules! ls { ($b:ident) => { if let Some(x) = opt(&c["line_search_params"]) { $b = $b.line_search_params(line(x)); } } }
    let cfg = match t {
        LocalSolverType::LBFGS => {
            let mut b = LBFGSBuilder::default();
            int!(b, max_iter);
            int!(b, history_size);
            set!(b, tolerance_grad, tolerance_cost);
            if let Some(x) = opt(&c["l1_coefficient"]) {
                b = b.l1_coefficient(Some(f(x)));
            }
            ls!(b);
            b.build()
        }
        LocalSolverType::NelderMead => {
            let mut b = NelderMeadBuilder::default();
            int!(b, max_iter);
            set!(b, simplex_delta, sd_tolerance, alpha, gamma, rho, sigma);
            b.build()
        }
        LocalSolverType::SteepestDescent => {
            let mut b = SteepestDescentBuilder::default();
            int!(b, max_iter);
            ls!(b);
            b.build()
        }
        LocalSolverType::TrustRegion => {
            let mut b = TrustRegionBuilder::default();
            int!(b, max_iter);
            set!(b, radius, max_radius, eta);
            if let Some(m) = opt(&c["trust_region_radius_method"]) {
                b = b.method(if m == "steihaug" { TrustRegionRadiusMethod::Steihaug } else { TrustRegionRadiusMethod::Cauchy });
            }
            b.build()
        }
        LocalSolverType::NewtonCG => {
            let mut b = NewtonCGBuilder::default();
            int!(b, max_iter);
            set!(b, curvature_threshold, tolerance);
            ls!(b);
            b.build()
        }
        LocalSolverType::COBYLA => {
            let mut b = COBYLABuilder::default();
            int!(b, max_iter);
            // 1.0 is the documented default of the Python configuration
            if opt(c).is_some() {
                b = b.initial_step_size(opt(&c["step_size"]).map_or(1.0, f));
            }
            set!(b, ftol_rel, ftol_abs, xtol_rel);
            if let Some(x) = opt(&c["xtol_abs"]) {
                b = b.xtol_abs(fs(x));
            }
            b.build()
        }
    };
    (t, cfg)
}

fn states(o: &Observer, fin: bool) -> Value {
    let s1 = if fin { o.stage1_final() } else { o.stage1() };
    let s1 = s1.map(|s| {
        json!([s.reference_set_size(), s.best_objective().to_bits(), s.current_substage(), s.function_evaluations(), s.trial_points_generated(),
               s.best_point().map(|p| bits(&p.to_vec())), s.total_time().is_some()])
    });
    let s2 = o.stage2().map(|s| {
        json!([s.best_objective().to_bits(), s.solution_set_size(), s.current_iteration(), s.threshold_value().to_bits(), s.local_solver_calls(),
               s.improved_local_calls(), s.function_evaluations(), s.unchanged_cycles(), s.best_point().map(|p| bits(&p.to_vec())),
               s.last_added_point().map(|p| bits(&p.to_vec())), s.total_time().is_some()])
    });
    json!([s1, s2])
}

fn run(v: &Value) -> Value {
    let q = &v["prob"];
    let u = |x: &Value| x.as_u64().expect("integer");
    let p = P {
        kind: u(&q["kind"]),
        lo: fs(&q["lo"]),
        hi: fs(&q["hi"]),
        a: fs(&q["a"]),
        c: fs(&q["c"]),
        cons: q["cons"].as_array().unwrap().iter().map(u).collect(),
        grad: q["grad"] == true,
        hess: q["hess"] == true,
        fail: u(&q["fail"]),
        limit: u(&v["limit"]),
        calls: Arc::new(AtomicU64::new(0)),
    };
    let (t, cfg) = solver(&v["solver"]);
    let a = &v["params"];
    let def = OQNLPParams::default();
    let params = OQNLPParams {
        iterations: u(&a["iterations"]) as usize,
        population_size: u(&a["population_size"]) as usize,
        wait_cycle: u(&a["wait_cycle"]) as usize,
        threshold_factor: f(&a["threshold_factor"]),
        distance_factor: f(&a["distance_factor"]),
        seed: opt(&v["seed"]).map_or(def.seed, u),
        local_solver_type: t,
        local_solver_config: cfg,
    };
    let log = Arc::new(Mutex::new(vec![]));
    let mut out = json!({});
    let built = OQNLP::new(p.clone(), params).map_err(|e| e.to_string()).and_then(|o| {
        let mut o = o;
        if let Some(pts) = opt(&v["points"]) {
            let rows: Vec<Vec<f64>> = pts.as_array().unwrap().iter().map(fs).collect();
            let cols = rows.first().map_or(0, |r| r.len());
            let arr = Array2::from_shape_vec((rows.len(), cols), rows.concat()).map_err(|e| e.to_string())?;
            o = o.with_points(arr).map_err(|e| e.to_string())?;
        }
        if let Some(ob) = opt(&v["observer"]) {
            let mut w = Observer::new();
            if ob["s1"] == true {
                w = w.with_stage1_tracking();
            }
            if ob["s2"] == true {
                w = w.with_stage2_tracking();
            }
            if ob["timing"] == true {
                w = w.with_timing();
            }
            if let Some(m) = opt(&ob["mode"]) {
                w = w.with_mode(match u(m) {
                    0 => ObserverMode::Stage1Only,
                    1 => ObserverMode::Stage2Only,
                    _ => ObserverMode::Both,
                });
            }
            if let Some(m) = opt(&ob["freq"]) {
                w = w.with_callback_frequency(u(m) as usize);
            }
            if ob["unique"] == true {
                w = w.unique_updates();
            }
            match opt(&ob["callback"]).map_or(9, u) {
                0 => {
                    let log = log.clone();
                    w = w.with_callback(move |o| log.lock().unwrap().push(states(o, false)));
                }
                1 => w = w.with_default_callback(),
                2 => w = w.with_stage1_callback(),
                3 => w = w.with_stage2_callback(),
                _ => {}
            }
            o = o.add_observer(w);
        }
        o = o.parallel(v["parallel"] == true);
        if let Some(x) = opt(&v["target"]) {
            o = o.target_objective(f(x));
        }
        if let Some(x) = opt(&v["max_time"]) {
            o = o.max_time(f(x));
        }
        if v["excl"] == true {
            o = o.exclude_out_of_bounds();
        }
        Ok(o.with_tolerance(f(&a["abs_tol"]), f(&a["rel_tol"])))
    });
    match built {
        Err(e) => out["err"] = json!(e),
        Ok(mut o) => match o.run() {
            Err(e) => out["err"] = json!(e.to_string()),
            Ok(set) => {
                out["ok"] = json!(set.solutions().map(|l| json!([bits(&l.point.to_vec()), l.objective.to_bits()])).collect::<Vec<_>>());
                if let Some(w) = o.observer() {
                    out["obs"] = states(w, true);
                }
            }
        },
    }
    out["cb"] = json!(*log.lock().unwrap());
    out["calls"] = json!(p.calls.load(Ordering::SeqCst));
    out
}

fn main() {
    // the library prints: keep the answers apart
    let mut out = unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        std::fs::File::from_raw_fd(saved)
    };
    for l in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&l.expect("stdin")).expect("case");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&v))).unwrap_or_else(|_| json!({"panic": true}));
        writeln!(out, "{r}").expect("answer");
        out.flush().expect("answer");
    }
}
