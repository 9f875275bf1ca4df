//! Generated optimization problems with an instrumented implementation of the library's trait.
use globalsearch::problem::Problem;
use globalsearch::types::EvaluationError;
use ndarray::{Array1, Array2};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Quad,
    DoubleWell,
    Rastrigin,
    Cosine,
    Abs,
    Const,
    Linear,
    Step,
}

/// Where (and how) the objective is not a number / infinite / failing.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct Hole {
    /// 0: +NaN, 1: -NaN, 2: +inf, 3: Err
    pub what: u8,
    /// the hole is the half space frac(x0) < cut (unit coordinates of the box) or > cut
    pub cut: f64,
    pub below: bool,
    /// > 0: the hole is the slab cut < frac(x0) < cut + w instead
    #[serde(default)]
    pub w: f64,
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum FaultFn {
    Objective,
    Gradient,
    Hessian,
}

/// The n-th call (0-based) of one of the functions fails; `len` consecutive calls fail.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub f: FaultFn,
    pub at: u64,
    pub len: u64,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct ProbSpec {
    pub kind: Kind,
    pub lo: Vec<f64>,
    pub width: Vec<f64>,
    /// optimum position in unit coordinates of the box (may lie outside [0,1])
    pub center: Vec<f64>,
    pub scale: f64,
    pub offset: f64,
    pub tilt: f64,
    pub freq: f64,
    pub cons: Vec<u8>,
    pub grad: bool,
    pub hess: bool,
    pub hole: Option<Hole>,
    pub fault: Option<Fault>,
}

impl ProbSpec {
    pub fn dim(&self) -> usize {
        self.lo.len()
    }
    pub fn hi(&self, i: usize) -> f64 {
        self.lo[i] + self.width[i]
    }
    pub fn bounds(&self) -> Array2<f64> {
        let d = self.dim();
        Array2::from_shape_fn((d, 2), |(i, j)| if j == 0 { self.lo[i] } else { self.hi(i) })
    }
    fn c(&self, i: usize) -> f64 {
        self.lo[i] + self.width[i] * self.center[i % self.center.len()]
    }
    /// local coordinate: distance from the centre measured in (box width / 4)
    fn t(&self, x: &[f64], i: usize) -> f64 {
        if self.width[i] == 0.0 {
            return x[i] - self.c(i); // a fixed variable
        }
        (x[i] - self.c(i)) / (self.width[i] / 4.0)
    }
    pub fn value(&self, x: &[f64]) -> f64 {
        let mut s = 0.0;
        for i in 0..x.len() {
            let t = self.t(x, i);
            s += match self.kind {
                Kind::Quad => self.scale * (1.0 + i as f64 * 0.5) * t * t + self.tilt * t,
                Kind::DoubleWell => self.scale * (t * t - 1.0) * (t * t - 1.0) + self.tilt * t,
                Kind::Rastrigin => {
                    self.scale * t * t + 2.0 * (1.0 - (self.freq * t).cos()) + self.tilt * t
                }
                Kind::Cosine => self.scale * (self.freq * t).cos() + self.tilt * t,
                Kind::Abs => self.scale * t.abs(),
                Kind::Const => 0.0,
                Kind::Linear => self.scale * t,
                Kind::Step => self.scale * (t.abs() * 2.0).floor(),
            };
        }
        s + self.offset
    }
    pub fn grad_at(&self, x: &[f64]) -> Vec<f64> {
        (0..x.len())
            .map(|i| {
                let t = self.t(x, i);
                let d = match self.kind {
                    Kind::Quad => 2.0 * self.scale * (1.0 + i as f64 * 0.5) * t + self.tilt,
                    Kind::DoubleWell => self.scale * 4.0 * t * (t * t - 1.0) + self.tilt,
                    Kind::Rastrigin => {
                        2.0 * self.scale * t + 2.0 * self.freq * (self.freq * t).sin() + self.tilt
                    }
                    Kind::Cosine => -self.scale * self.freq * (self.freq * t).sin() + self.tilt,
                    Kind::Abs => self.scale * t.signum(),
                    Kind::Const => 0.0,
                    Kind::Linear => self.scale,
                    Kind::Step => 0.0,
                };
                d / (self.width[i] / 4.0)
            })
            .collect()
    }
    pub fn hess_diag(&self, x: &[f64]) -> Vec<f64> {
        (0..x.len())
            .map(|i| {
                let t = self.t(x, i);
                let d = match self.kind {
                    Kind::Quad => 2.0 * self.scale * (1.0 + i as f64 * 0.5),
                    Kind::DoubleWell => self.scale * (12.0 * t * t - 4.0),
                    Kind::Rastrigin => {
                        2.0 * self.scale + 2.0 * self.freq * self.freq * (self.freq * t).cos()
                    }
                    Kind::Cosine => -self.scale * self.freq * self.freq * (self.freq * t).cos(),
                    _ => 0.0,
                };
                let w = self.width[i] / 4.0;
                d / (w * w)
            })
            .collect()
    }
    pub fn in_hole(&self, x: &[f64]) -> Option<u8> {
        self.hole.and_then(|h| {
            let u = (x[0] - self.lo[0]) / self.width[0];
            let inside = if h.w > 0.0 {
                u > h.cut && u < h.cut + h.w
            } else {
                (h.below && u < h.cut) || (!h.below && u > h.cut)
            };
            if inside { Some(h.what) } else { None }
        })
    }
    /// What the objective returns at x, without counting the call. None = error.
    pub fn eval(&self, x: &[f64]) -> Option<f64> {
        match self.in_hole(x) {
            Some(0) => Some(f64::NAN.copysign(1.0)),
            Some(1) => Some(f64::NAN.copysign(-1.0)),
            Some(2) => Some(f64::INFINITY),
            Some(_) => None,
            None => Some(self.value(x)),
        }
    }
    pub fn inside(&self, x: &[f64]) -> bool {
        x.len() == self.dim() && (0..x.len()).all(|i| x[i] >= self.lo[i] && x[i] <= self.hi(i))
    }
    pub fn feasible(&self, x: &[f64]) -> bool {
        self.cons.iter().all(|&k| constraint_value(k, x) >= 0.0)
    }
}

// ---- constraint catalogue (the library takes plain fn pointers) -----------------------------
pub const N_CONS: u8 = 10;
fn c0(x: &[f64], _: &mut ()) -> f64 {
    1.5 - x[0]
}
fn c1(x: &[f64], _: &mut ()) -> f64 {
    x[0] + 1.5
}
fn c2(x: &[f64], _: &mut ()) -> f64 {
    9.0 - x.iter().map(|v| v * v).sum::<f64>()
}
fn c3(x: &[f64], _: &mut ()) -> f64 {
    x.iter().sum::<f64>() + 1.0
}
fn c4(x: &[f64], _: &mut ()) -> f64 {
    x.iter().map(|v| v * v).sum::<f64>() - 0.25
}
fn c5(x: &[f64], _: &mut ()) -> f64 {
    1.0 + 0.0 * x[0]
}
fn c6(x: &[f64], _: &mut ()) -> f64 {
    2.0 - x[x.len() - 1].abs()
}
fn c7(x: &[f64], _: &mut ()) -> f64 {
    x[0] - x[x.len() - 1] + 2.0
}
fn c8(x: &[f64], _: &mut ()) -> f64 {
    // zero on a half space: boundary values count as satisfied
    x[0].max(0.0)
}
fn c9(x: &[f64], _: &mut ()) -> f64 {
    -1.0 - x[0].abs()
}
fn c10(x: &[f64], _: &mut ()) -> f64 {
    // not a number on part of the box
    (x[0] + 0.5).sqrt()
}
fn c11(x: &[f64], _: &mut ()) -> f64 {
    // violated by next to nothing on part of the box, -0.0 elsewhere
    if x[x.len() - 1] > 0.4 { -1e-300 } else { -0.0 }
}
/// satisfied by every point of an ordinary box, with different gradients
fn pad<const K: usize>(x: &[f64], _: &mut ()) -> f64 {
    let s = if K % 2 == 0 { 1.0 } else { -1.0 };
    1e3 + 7.0 * K as f64 + s * x[K % x.len()] + 0.125 * (K as f64 + 1.0) * x[0]
}
pub const N_PADS: u8 = 16;
const PADS: [fn(&[f64], &mut ()) -> f64; N_PADS as usize] = [
    pad::<0>, pad::<1>, pad::<2>, pad::<3>, pad::<4>, pad::<5>, pad::<6>, pad::<7>,
    pad::<8>, pad::<9>, pad::<10>, pad::<11>, pad::<12>, pad::<13>, pad::<14>, pad::<15>,
];
pub fn constraint(k: u8) -> fn(&[f64], &mut ()) -> f64 {
    match k {
        0 => c0,
        1 => c1,
        2 => c2,
        3 => c3,
        4 => c4,
        5 => c5,
        6 => c6,
        7 => c7,
        8 => c8,
        10 => c10,
        11 => c11,
        100.. => PADS[(k - 100) as usize % PADS.len()],
        _ => c9,
    }
}
pub fn constraint_value(k: u8, x: &[f64]) -> f64 {
    constraint(k)(x, &mut ())
}

/// Some line searches of the numerical library never end on some functions: cut them off.
pub const RUNAWAY: u64 = 100_000;

// ---- instrumented problem --------------------------------------------------------------------
#[derive(Default)]
pub struct Log {
    pub points: Mutex<Vec<(Vec<f64>, f64)>>,
    pub n_obj: AtomicU64,
    pub n_grad: AtomicU64,
    pub n_hess: AtomicU64,
    pub faults_hit: AtomicU64,
    /// sleep per objective call, microseconds
    pub delay_us: AtomicU64,
    /// call number + 1 at which the objective sleeps for `delay_us` (0: at every call)
    pub delay_at: AtomicU64,
    /// non-zero: disturb the scheduling, differently for every value
    pub jitter: AtomicU64,
    /// call number + 1 of the objective call that panics (a simulated crash), 0: none
    pub panic_at: AtomicU64,
    /// calls allowed before every further call fails; 0: RUNAWAY
    pub limit: AtomicU64,
    /// non-zero: gradient and Hessian fail where they are not moderate finite numbers
    pub strict: AtomicU64,
    /// which error a failing call returns (0: the usual one of the function)
    pub err_kind: AtomicU64,
}
impl Log {
    pub fn obj(&self) -> u64 {
        self.n_obj.load(Ordering::SeqCst)
    }
    /// a local search was cut off because it would not end
    pub fn ranaway(&self) -> bool {
        let l = self.limit();
        self.obj() >= l || self.n_grad.load(Ordering::SeqCst) >= l || self.n_hess.load(Ordering::SeqCst) >= l
    }
    pub fn limit(&self) -> u64 {
        match self.limit.load(Ordering::Relaxed) {
            0 => RUNAWAY,
            l => l,
        }
    }
    #[allow(dead_code)]
    pub fn take_points(&self) -> Vec<(Vec<f64>, f64)> {
        std::mem::take(&mut *self.points.lock().unwrap())
    }
    pub fn points(&self) -> Vec<(Vec<f64>, f64)> {
        self.points.lock().unwrap().clone()
    }
}

#[derive(Clone)]
pub struct Prob {
    pub spec: Arc<ProbSpec>,
    pub log: Arc<Log>,
}
impl Prob {
    pub fn new(spec: &ProbSpec) -> Prob {
        Prob { spec: Arc::new(spec.clone()), log: Arc::new(Log::default()) }
    }
}
fn hit(f: &Option<Fault>, which: FaultFn, n: u64) -> bool {
    matches!(f, Some(f) if f.f == which && n >= f.at && n - f.at < f.len)
}
/// number of kinds of error a failing call may return
pub const ERR_KINDS: u64 = 15;
impl Prob {
    /// the error a failing call of `f` returns
    pub fn error(&self, f: FaultFn) -> EvaluationError {
        self.error_or(match f {
            FaultFn::Objective => EvaluationError::DivisionByZero,
            FaultFn::Gradient => EvaluationError::GradientEvaluationFailed { reason: "fault".into() },
            FaultFn::Hessian => EvaluationError::HessianEvaluationFailed { reason: "fault".into() },
        })
    }
    fn error_or(&self, usual: EvaluationError) -> EvaluationError {
        use EvaluationError::*;
        let reason = String::from("fault");
        match self.log.err_kind.load(Ordering::Relaxed) {
            0 => usual,
            1 => InvalidInput { reason },
            2 => DivisionByZero,
            3 => NegativeSqrt { value: -1.0 },
            4 => ObjectiveFunctionNotImplemented,
            5 => GradientNotImplemented,
            6 => HessianNotImplemented,
            7 => ObjectiveFunctionEvaluationFailed { reason },
            8 => GradientEvaluationFailed { reason },
            9 => HessianEvaluationFailed { reason },
            10 => ConstraintNotImplemented,
            11 => InvalidConstraintIndex { index: 3, max_index: 2 },
            12 => NegativeSqrt { value: f64::NAN },
            13 => ConstraintEvaluationFailed { index: 0, reason },
            _ => InvalidInput { reason: String::new() },
        }
    }
    fn moderate(&self, v: &[f64]) -> Result<(), EvaluationError> {
        if self.log.strict.load(Ordering::Relaxed) != 0 && v.iter().any(|g| !(g.abs() < 1e100)) {
            return Err(EvaluationError::InvalidInput { reason: "out of range".into() });
        }
        Ok(())
    }
}
impl Problem for Prob {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let n = self.log.n_obj.fetch_add(1, Ordering::SeqCst);
        if n >= self.log.limit() {
            return Err(EvaluationError::InvalidInput { reason: "runaway".into() });
        }
        if self.log.panic_at.load(Ordering::Relaxed) == n + 1 {
            panic!("simulated crash");
        }
        let d = self.log.delay_us.load(Ordering::Relaxed);
        let at = self.log.delay_at.load(Ordering::Relaxed);
        if d > 0 && (at == 0 || at == n + 1) {
            std::thread::sleep(std::time::Duration::from_micros(d));
        }
        let xs: Vec<f64> = x.to_vec();
        let j = self.log.jitter.load(Ordering::Relaxed);
        if j != 0 {
            let h = xs.iter().fold(j, |h, v| (h ^ v.to_bits()).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23));
            match h % 16 {
                0 => std::thread::sleep(std::time::Duration::from_micros(h >> 8 & 127)),
                1..=4 => std::thread::yield_now(),
                _ => {}
            }
        }
        if hit(&self.spec.fault, FaultFn::Objective, n) {
            self.log.faults_hit.fetch_add(1, Ordering::SeqCst);
            self.log.points.lock().unwrap().push((xs, f64::NAN));
            return Err(self.error(FaultFn::Objective));
        }
        match self.spec.eval(&xs) {
            Some(v) => {
                self.log.points.lock().unwrap().push((xs, v));
                Ok(v)
            }
            None => {
                self.log.faults_hit.fetch_add(1, Ordering::SeqCst);
                self.log.points.lock().unwrap().push((xs, f64::NAN));
                Err(self.error_or(EvaluationError::InvalidInput { reason: "hole".into() }))
            }
        }
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        let n = self.log.n_grad.fetch_add(1, Ordering::SeqCst);
        if n >= self.log.limit() {
            return Err(EvaluationError::InvalidInput { reason: "runaway".into() });
        }
        if hit(&self.spec.fault, FaultFn::Gradient, n) {
            self.log.faults_hit.fetch_add(1, Ordering::SeqCst);
            return Err(self.error(FaultFn::Gradient));
        }
        if !self.spec.grad {
            return Err(EvaluationError::GradientNotImplemented);
        }
        let g = self.spec.grad_at(&x.to_vec());
        self.moderate(&g)?;
        Ok(Array1::from(g))
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        let n = self.log.n_hess.fetch_add(1, Ordering::SeqCst);
        if n >= self.log.limit() {
            return Err(EvaluationError::InvalidInput { reason: "runaway".into() });
        }
        if hit(&self.spec.fault, FaultFn::Hessian, n) {
            self.log.faults_hit.fetch_add(1, Ordering::SeqCst);
            return Err(self.error(FaultFn::Hessian));
        }
        if !self.spec.hess {
            return Err(EvaluationError::HessianNotImplemented);
        }
        let h = self.spec.hess_diag(&x.to_vec());
        self.moderate(&h)?;
        Ok(Array2::from_shape_fn((h.len(), h.len()), |(i, j)| if i == j { h[i] } else { 0.0 }))
    }
    fn variable_bounds(&self) -> Array2<f64> {
        self.spec.bounds()
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        self.spec.cons.iter().map(|&k| constraint(k)).collect()
    }
}

pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn same_vec(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y))
}
