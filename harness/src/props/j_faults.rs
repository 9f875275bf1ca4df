//! C21 (failing user functions), C22 (objective values that are not numbers)
use super::a_results::{honest, local_case, LocalCase};
use super::c_stage1::{pools, sorted, stage1_case};
use super::common::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::model::*;
use crate::prob::*;
use globalsearch::observers::Observer;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::{LocalSolution, SolutionSet};
use ndarray::Array1;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn fault(max: u64) -> BoxedStrategy<Fault> {
    (
        prop_oneof![4 => Just(FaultFn::Objective), 2 => Just(FaultFn::Gradient), 1 => Just(FaultFn::Hessian)],
        prop_oneof![2 => 0..6u64, 4 => 0..max],
        prop_oneof![5 => Just(1u64), 2 => 2u64..8, 1 => Just(u64::MAX / 2)],
    )
        .prop_map(|(f, at, len)| Fault { f, at, len })
        .boxed()
}
pub fn slab(what: BoxedStrategy<u8>) -> BoxedStrategy<Hole> {
    (what, 0u32..=100, prop_oneof![3 => 1u32..=10, 1 => 10u32..=40, 1 => 0u32..=1], any::<bool>(), prop_oneof![5 => Just(0u8), 1 => Just(1), 1 => Just(2), 1 => Just(3), 1 => Just(4)])
        .prop_map(|(what, cut, w, below, shape)| match shape {
            0 => Hole { what, cut: cut as f64 / 100.0 + 0.001, below, w: w as f64 / 100.0 + 0.002 },
            // a half space that contains part of the box
            1 => Hole { what, cut: cut as f64 / 100.0, below, w: 0.0 },
            // nearly the whole box
            3 => Hole { what, cut: -0.01, below, w: 1.005 + 0.03 * f64::from(w % 2) },
            4 => Hole { what, cut: 0.01 * f64::from(w % 3), below: false, w: 0.0 },
            // everything outside the box on one side
            _ => Hole { what, cut: if below { -0.001 } else { 1.001 }, below, w: 0.0 },
        })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct LFault {
    c: LocalCase,
    fault: Fault,
    track: bool,
    /// which error the failing call returns
    #[serde(default)]
    kind: u64,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RFault {
    run: RunCase,
    f: FaultFn,
    /// position of the failing call, as a fraction (of 65536) of the calls of the undisturbed run
    at: u16,
    len: u64,
    /// which error the failing call returns
    #[serde(default)]
    kind: u64,
}

/// statuses with which the constrained solver gives up without a failing call, too
fn gave_up(e: &str) -> bool {
    e.contains("RoundoffLimited")
}

pub fn c21(ctx: &Ctx) {
    ctx.assume("a search or run cut off after 100000 calls is not judged");
    ctx.assume("the constrained solver's status `RoundoffLimited` is a failure of the solver itself");
    ctx.sub(
        "local",
        "one local search in which some calls of the objective, gradient or Hessian fail; non-trivial when a failing call was reached",
        ctx.n(40000, 1500000),
        || {
            (prop_oneof![4 => local_case(POpt { max_dim: 5, ..PLAIN }), 1 => local_case(POpt { cons: true, ..PLAIN })], fault(60), any::<bool>(), 0..ERR_KINDS)
                .prop_map(|(c, fault, track, kind)| LFault { c, fault, track, kind })
        },
        |c: &LFault| {
            let (t, cfg) = c.c.solver.build();
            let mut spec = c.c.prob.clone();
            spec.fault = Some(c.fault);
            let x0 = Array1::from(unit_to_box(&spec, &c.c.start));
            let go = |s: &ProbSpec, track: bool, kind: u64| {
                let p = Prob::new(s);
                p.log.err_kind.store(kind, std::sync::atomic::Ordering::Relaxed);
                let ls = globalsearch::local_solver::runner::LocalSolver::new(p.clone(), t.clone(), cfg.clone());
                let r = if track { ls.solve_with_tracking(x0.clone(), true).map(|(s, n)| (s, Some(n))) } else { ls.solve(x0.clone()).map(|s| (s, None)) };
                (r, p)
            };
            let (r, p) = go(&spec, c.track, c.kind);
            let (clean, q) = go(&c.c.prob, c.track, 0);
            if p.log.ranaway() || q.log.ranaway() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            let hit = p.log.faults_hit.load(std::sync::atomic::Ordering::SeqCst);
            if hit == 0 {
                let same_out = match (&r, &clean) {
                    (Ok((a, n)), Ok((b, m))) => same_vec(&a.point.to_vec(), &b.point.to_vec()) && same(a.objective, b.objective) && n == m,
                    (Err(a), Err(b)) => a == b,
                    _ => false,
                };
                ensure!(same_out && p.log.obj() == q.log.obj(), "no call failed, but the outcome differs: {r:?} / {clean:?}");
                return Ok(Info::nt(false));
            }
            let log = p.log.points();
            let cob = c.c.solver.name() == "cobyla";
            match &r {
                Ok((s, n)) => {
                    let ok: Pts = log.iter().filter(|x| !x.1.is_nan()).cloned().collect();
                    honest(&c.c.prob, &vec![(s.point.to_vec(), s.objective)], &ok, cob)?;
                    ensure!(
                        ok.iter().any(|x| same(x.1, s.objective)),
                        "the search reports {:?}, a value no successful call returned ({} of {} calls failed)",
                        s.objective,
                        hit,
                        p.log.obj()
                    );
                    ensure!(n.is_none_or(|n| n == p.log.obj()), "{n:?} evaluations reported, {} made", p.log.obj());
                }
                Err(e) => {
                    let any_ok = log.iter().any(|x| !x.1.is_nan());
                    ensure!(!(cob && any_ok) || gave_up(&e.to_string()), "one failing call ends the constrained search: {e}");
                    ensure!(!e.to_string().is_empty(), "empty error");
                }
            }
            // with and without counting alike
            let (r2, _) = go(&spec, !c.track, c.kind);
            match (&r, &r2) {
                (Ok(a), Ok(b)) => ensure!(same_vec(&a.0.point.to_vec(), &b.0.point.to_vec()) && same(a.0.objective, b.0.objective), "tracking changes the result"),
                (Err(a), Err(b)) => ensure!(a == b, "tracking changes the error: {a} / {b}"),
                _ => return Err(format!("tracking changes the outcome: {r:?} / {r2:?}")),
            }
            // whatever kind of error the function returns
            let (r3, o) = go(&spec, c.track, 0);
            let alike = match (&r, &r3) {
                (Ok(a), Ok(b)) => same_vec(&a.0.point.to_vec(), &b.0.point.to_vec()) && same(a.0.objective, b.0.objective) && a.1 == b.1,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            ensure!(alike && p.log.obj() == o.log.obj(), "error number {} has another outcome than the usual one: {r:?} / {r3:?}", c.kind);
            if let Err(e) = &r {
                let own = p.error(c.fault.f).to_string();
                ensure!(cob || c.c.solver.name() == "lbfgs" || e.to_string().contains(&own), "the function failed with {own:?}, the error is {e}");
            }
            Ok(Info::nt(true).label(r.is_ok(), &format!("survived {}", c.c.solver.name())).label(r.is_err(), &format!("error {}", c.c.solver.name())))
        },
    );
    ctx.sub(
        "stage1",
        "Stage 1 in which one or more objective calls fail, by call number; non-trivial when a failing call was reached",
        ctx.n(12000, 400000),
        || (stage1_case(POpt { max_dim: 5, ..PLAIN }), any::<u16>(), prop_oneof![4 => Just(1u64), 2 => 2u64..8, 1 => Just(u64::MAX / 2)], prop_oneof![1 => Just(true), 3 => Just(false)], any::<bool>(), 0..ERR_KINDS).prop_map(|(run, at, len, early, par, kind)| {
            let mut run = run;
            run.parallel = par;
            RFault { run, f: if early { FaultFn::Gradient } else { FaultFn::Objective }, at, len, kind }
        }),
        |c: &RFault| {
            let run = &c.run;
            let clean = Prob::new(&run.prob);
            let Some(_) = stage1(run, &clean) else { return Err("Stage 1 fails without constraints".into()) };
            let total = clean.log.obj();
            let init = (run.pop.max(3 + run.custom.len())) as u64;
            // (the marker `Gradient` stands for: among the initial points)
            let (from, to) = if c.f == FaultFn::Gradient || total <= init { (0, init) } else { (init, total) };
            let at = from + (((to - from) * c.at as u64) >> 16);
            let mut spec = run.prob.clone();
            spec.fault = Some(Fault { f: FaultFn::Objective, at, len: c.len });
            let p = Prob::new(&spec);
            p.log.err_kind.store(c.kind, std::sync::atomic::Ordering::Relaxed);
            let mut ss = ScatterSearch::new(p.clone(), run.params()).map_err(|e| e.to_string())?.parallel(run.parallel);
            if let Some(cp) = run.custom_points() {
                ss = ss.with_custom_points(cp.outer_iter().map(|r| r.to_owned()).collect());
            }
            let r = ss.run();
            let hit = p.log.faults_hit.load(std::sync::atomic::Ordering::SeqCst);
            if at < init {
                ensure!(r.is_err(), "call {at} of the {init} initial evaluations fails, but Stage 1 succeeds");
                let (own, e) = (p.error(FaultFn::Objective).to_string(), r.err().map(|e| e.to_string()).unwrap_or_default());
                ensure!(e.contains(&own), "the function failed with {own:?}, the error is {e}");
                return Ok(Info::nt(hit > 0).label(true, "initial evaluation"));
            }
            let (set, best) = match r {
                Ok(r) => r,
                Err(e) => return Err(format!("a combination candidate cannot be evaluated (call {at}) and Stage 1 fails: {e}")),
            };
            let set: Pts = set.into_iter().map(|(x, f)| (x.to_vec(), f)).collect();
            ensure!(set.len() == run.pop || (set.len() > run.pop && set.len() <= init as usize), "{} reference points for a population of {}", set.len(), run.pop);
            honest(&run.prob, &set, &[], false)?;
            // the best of what could be evaluated
            let ok: Vec<f64> = {
                let mut v: Vec<f64> = p.log.points().iter().map(|x| x.1).filter(|f| !f.is_nan()).collect();
                v.sort_by(f64::total_cmp);
                v
            };
            let mut have: Vec<f64> = set.iter().map(|x| x.1).collect();
            have.sort_by(f64::total_cmp);
            for (i, (a, b)) in have.iter().zip(&ok).enumerate() {
                ensure!(a == b, "the {i}th best reference value is {a:?} but Stage 1 evaluated a point with {b:?}");
            }
            ensure!(run.prob.value(&best.to_vec()) == have[0], "the start of the first local search is not the best reference point");
            Ok(Info::nt(hit > 0).label(true, if hit > 0 { "candidate skipped" } else { "not reached" }).label(hit > 5, "many"))
        },
    );
    ctx.sub(
        "run",
        "a whole run in which the n-th call of the objective, gradient or Hessian fails; non-trivial when a failing call was reached",
        ctx.n(14000, 500000),
        || {
            (
                prop_oneof![3 => run_case(ROpt { max_pop: 24, ..RUN }), 2 => rich_case(ROpt { max_pop: 24, ..RUN }), 1 => run_case(ROpt { p: POpt { cons: true, ..PLAIN }, max_pop: 20, ..RUN })],
                prop_oneof![4 => Just(FaultFn::Objective), 2 => Just(FaultFn::Gradient), 1 => Just(FaultFn::Hessian)],
                any::<u16>(),
                prop_oneof![5 => Just(1u64), 2 => 2u64..8, 1 => Just(u64::MAX / 2)],
                0..ERR_KINDS,
            )
                .prop_map(|(run, f, at, len, kind)| RFault { run, f, at, len, kind })
        },
        |c: &RFault| {
            use std::sync::atomic::Ordering::SeqCst;
            let run = &c.run;
            let clean = Prob::new(&run.prob);
            let cr = run.optimizer(&clean).run();
            if clean.log.ranaway() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            let total = match c.f {
                FaultFn::Objective => clean.log.obj(),
                FaultFn::Gradient => clean.log.n_grad.load(SeqCst),
                FaultFn::Hessian => clean.log.n_hess.load(SeqCst),
            };
            let at = (total * c.at as u64) >> 16;
            let mut spec = run.prob.clone();
            spec.fault = Some(Fault { f: c.f, at, len: c.len });
            let p = Prob::new(&spec);
            p.log.err_kind.store(c.kind, std::sync::atomic::Ordering::Relaxed);
            let r = run.optimizer(&p).run();
            if p.log.ranaway() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            let hit = p.log.faults_hit.load(SeqCst);
            let cob = run.solver.name() == "cobyla";
            if hit == 0 {
                let eq = match (&r, &cr) {
                    (Ok(a), Ok(b)) => same_pts(&set_vec(a), &set_vec(b)),
                    // (which of several failing searches of a batch is reported may differ)
                    (Err(a), Err(b)) => run.parallel || a.to_string() == b.to_string(),
                    _ => false,
                };
                ensure!(eq, "no call failed, but the outcome differs");
            }
            let mut info = Info::nt(hit > 0);
            match &r {
                Ok(s) => {
                    let s = set_vec(s);
                    ensure!(!s.is_empty(), "empty solution set returned as success");
                    let ok: Pts = p.log.points().into_iter().filter(|x| !x.1.is_nan()).collect();
                    honest(&run.prob, &s, &ok, cob)?;
                    for (x, f) in &s {
                        ensure!(ok.iter().any(|y| same(y.1, *f)), "the solution {f:?} at {x:?} has a value no successful call returned");
                    }
                    info = info.label(hit > 0, "survived");
                }
                Err(e) => {
                    let e = e.to_string();
                    info = info.label(hit > 0, "error");
                    // the constrained solver survives single failures in its searches
                    let p1 = Prob::new(&run.prob);
                    if hit > 0 && !cob && !run.parallel && run.solver.name() != "lbfgs" && cr.is_ok() {
                        // (a candidate skipped in Stage 1 can lead to a search that fails by itself)
                        let _ = stage1(run, &p1);
                        let own = p.error(c.f).to_string();
                        ensure!((c.f == FaultFn::Objective && at < p1.log.obj()) || e.contains(&own), "the function failed with {own:?}, the error is {e}");
                    }
                    let p1 = Prob::new(&run.prob);
                    if hit > 0 && cob && c.len == 1 && cr.is_ok() && !run.parallel && stage1(run, &p1).is_some() && at >= p1.log.obj() {
                        ensure!(gave_up(&e) || run.excl, "a single failing call (number {at}) in a local search of the constrained solver ends the run: {e}");
                    }
                }
            }
            // sequential runs fail the same way every time
            if !run.parallel {
                // (whatever the kind of error)
                for kind in [c.kind, 0] {
                    let p2 = Prob::new(&spec);
                    p2.log.err_kind.store(kind, std::sync::atomic::Ordering::Relaxed);
                    let r2 = run.optimizer(&p2).run();
                    let eq = match (&r, &r2) {
                        (Ok(a), Ok(b)) => same_pts(&set_vec(a), &set_vec(b)),
                        (Err(a), Err(b)) => kind != c.kind || a.to_string() == b.to_string(),
                        _ => false,
                    };
                    ensure!(eq && same_pts(&p.log.points(), &p2.log.points()), "the same failure has another outcome the second time (error {}, then {kind})", c.kind);
                }
            }
            // and nothing is left behind
            let again = Prob::new(&run.prob);
            let ar = run.optimizer(&again).run();
            let eq = match (&ar, &cr) {
                (Ok(a), Ok(b)) => same_pts(&set_vec(a), &set_vec(b)),
                (Err(a), Err(b)) => run.parallel || a.to_string() == b.to_string(),
                _ => false,
            };
            // (searches running in parallel to a failing one may or may not finish)
            let logs = (run.parallel && cr.is_err()) || sorted(&again.log.points()) == sorted(&clean.log.points());
            ensure!(eq && logs, "an undisturbed run after a disturbed one has another outcome: {:?} instead of {:?}, {} calls instead of {}", ar.as_ref().map(set_vec).map_err(|e| e.to_string()), cr.as_ref().map(set_vec).map_err(|e| e.to_string()), again.log.obj(), clean.log.obj());
            Ok(info.label(c.len > 1 && hit > 1, "several failures"))
        },
    );
    ctx.sub(
        "modes",
        "a problem whose objective fails on part of the space, solved sequentially, with batches of one and on different numbers of threads; non-trivial when a call failed",
        ctx.n(4000, 150000),
        || (prop_oneof![run_case(ROpt { max_pop: 30, ..RUN }), rich_case(ROpt { max_pop: 30, ..RUN })], slab(Just(3u8).boxed())).prop_map(|(mut c, h)| {
            c.prob.hole = Some(h);
            c
        }),
        |c: &RunCase| {
            use std::sync::atomic::Ordering::SeqCst;
            let go = |parallel: bool, batch: Option<usize>| {
                let p = Prob::new(&c.prob);
                let mut c = c.clone();
                c.parallel = parallel;
                c.batch = batch;
                let r = c.optimizer(&p).run().map(|s| set_vec(&s)).map_err(|e| e.to_string());
                (r, p)
            };
            let eq = |a: &Result<Pts, String>, b: &Result<Pts, String>| match (a, b) {
                (Ok(a), Ok(b)) => same_pts(a, b),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            let (a, p) = go(false, None);
            let (b, q) = go(true, Some(1));
            if p.log.ranaway() || q.log.ranaway() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            let sh = |r: &Result<Pts, String>| match r {
                Ok(p) => show(p),
                Err(e) => e.clone(),
            };
            ensure!(eq(&a, &b), "sequentially {} but with batches of one {}", sh(&a), sh(&b));
            if let Ok(s) = &a {
                honest(&c.prob, s, &p.log.points().into_iter().filter(|x| !x.1.is_nan()).collect::<Vec<_>>(), c.solver.name() == "cobyla")?;
            }
            let n = c.batch.unwrap_or(3);
            let outs: Vec<_> = [0usize, 3].iter().map(|i| pools()[*i].install(|| go(true, Some(n)))).collect();
            if outs.iter().any(|o| o.1.log.ranaway()) {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            ensure!(eq(&outs[0].0, &outs[1].0), "batches of {n} on one thread {} but on seven {}", sh(&outs[0].0), sh(&outs[1].0));
            if let Ok(s) = &outs[0].0 {
                honest(&c.prob, s, &outs[0].1.log.points().into_iter().filter(|x| !x.1.is_nan()).collect::<Vec<_>>(), c.solver.name() == "cobyla")?;
            }
            Ok(Info::nt(p.log.faults_hit.load(SeqCst) > 0).label(a.is_ok(), "completed").label(a.is_err(), "error"))
        },
    );
}

// ---- C22 ---------------------------------------------------------------------------------------
/// numbers in ascending order, then everything that is not a number
fn order(a: &f64, b: &f64) -> std::cmp::Ordering {
    match (a.is_nan(), b.is_nan()) {
        (true, true) => std::cmp::Ordering::Equal,
        (true, false) => std::cmp::Ordering::Greater,
        (false, true) => std::cmp::Ordering::Less,
        _ => a.partial_cmp(b).unwrap(),
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sets {
    /// kinds: 0..=6 numbers, 7 +inf, 8 -inf, 9 +NaN, 10 -NaN, 11 NaN with a payload
    vals: Vec<u8>,
}
fn special(k: u8) -> f64 {
    match k {
        7 => f64::INFINITY,
        8 => f64::NEG_INFINITY,
        9 => f64::NAN.copysign(1.0),
        10 => f64::NAN.copysign(-1.0),
        11 => f64::from_bits(0xfff0_0000_0000_0001),
        12 => f64::from_bits(0x7ff0_0000_0000_0f01),
        k => k as f64 - 3.0,
    }
}

pub fn c22(ctx: &Ctx) {
    let what = || prop_oneof![2 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)].boxed();
    ctx.assume("a run cut off after 100000 calls is not judged");
    ctx.sub(
        "local",
        "one local search on a problem whose objective is not a number on part of the space, with few or many variables; non-trivial when both numbers and others were evaluated",
        ctx.n(20000, 600000),
        || {
            let many = (20usize..30, neldermead(), prob(PLAIN), prop::collection::vec(frac(), 5)).prop_map(|(d, solver, mut prob, start)| {
                let k = prob.dim();
                prob.lo = (0..d).map(|i| prob.lo[i % k]).collect();
                prob.width = (0..d).map(|i| prob.width[i % k]).collect();
                prob.center = (0..d).map(|i| prob.center[i % k]).collect();
                LocalCase { prob, solver, start }
            });
            (prop_oneof![6 => local_case(POpt { max_dim: 5, ..PLAIN }), 1 => many], slab(what()), any::<bool>()).prop_map(|(mut c, h, track)| {
                c.prob.hole = Some(h);
                (c, track)
            })
        },
        |(c, track): &(LocalCase, bool)| {
            let (t, cfg) = c.solver.build();
            let p = Prob::new(&c.prob);
            let x0 = Array1::from(unit_to_box(&c.prob, &c.start));
            let ls = globalsearch::local_solver::runner::LocalSolver::new(p.clone(), t, cfg);
            let r = if *track { ls.solve_with_tracking(x0, true).map(|(s, n)| (s, Some(n))) } else { ls.solve(x0).map(|s| (s, None)) };
            if p.log.ranaway() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            let log = p.log.points();
            let numbers = log.iter().any(|x| !x.1.is_nan());
            let nans = log.iter().any(|x| x.1.is_nan());
            if let Ok((s, n)) = &r {
                let f = c.prob.eval(&s.point.to_vec()).unwrap_or(f64::NAN);
                ensure!(f.to_bits() == s.objective.to_bits() || (f.is_nan() && s.objective.is_nan()) || c.solver.name() == "cobyla" && log.iter().any(|x| x.1 == s.objective || x.1.is_nan() && s.objective.is_nan()), "the search returns {:?} at {}, the objective there is {f:?}", s.objective, s.point);
                ensure!(!s.objective.is_nan() || !numbers, "the search evaluated a number but returns {:?}", s.objective);
                ensure!(n.is_none_or(|n| n == p.log.obj()), "{n:?} evaluations reported, {} made", p.log.obj());
            }
            Ok(Info::nt(numbers && nans).label(r.is_ok(), "result").label(r.is_err(), "error").label(c.prob.dim() >= 20, "many variables"))
        },
    );
    ctx.sub(
        "stage1",
        "Stage 1 of a problem that is not a number (or infinite) on part of the box; non-trivial when both numbers and others were evaluated",
        ctx.n(20000, 600000),
        || (stage1_case(POpt { max_dim: 5, ..PLAIN }), slab(what())).prop_map(|(mut c, h)| {
            c.prob.hole = Some(h);
            c
        }),
        |c: &RunCase| {
            let p = Prob::new(&c.prob);
            let Some((set, best)) = stage1(c, &p) else { return Err("Stage 1 fails although no call does".into()) };
            let log = p.log.points();
            for (x, f) in &set {
                let v = c.prob.eval(x).unwrap();
                ensure!(same(v, *f), "reference point {x:?} is paired with {f:?}, its objective is {v:?}");
            }
            let mut have: Vec<f64> = set.iter().map(|x| x.1).collect();
            let mut all: Vec<f64> = log.iter().map(|x| x.1).collect();
            have.sort_by(order);
            all.sort_by(order);
            for (i, (a, b)) in have.iter().zip(&all).enumerate() {
                ensure!(same(*a, *b), "the {i}th best reference value is {a:?} but Stage 1 evaluated a point with {b:?}");
            }
            let f = c.prob.eval(&best).unwrap();
            ensure!(same(f, all[0]), "the first local search starts where the objective is {f:?}, Stage 1 knows a point with {:?}", all[0]);
            let bad = all.iter().filter(|f| !f.is_finite()).count();
            Ok(Info::nt(bad > 0 && bad < all.len())
                .label(bad == all.len(), "no number at all")
                .label(have.iter().any(|f| !f.is_finite()) && have.iter().any(|f| f.is_finite()), "both in the reference set")
                .label(bad == 0, "hole missed"))
        },
    );
    ctx.sub(
        "run",
        "a whole run on such a problem with its history; non-trivial when numbers and others were evaluated in Stage 2 or a local search ended without a number",
        ctx.n(16000, 500000),
        || (prop_oneof![run_case(ROpt { max_pop: 30, ..RUN }), rich_case(ROpt { max_pop: 30, ..RUN })], slab(what())).prop_map(|(mut c, h)| {
            c.prob.hole = Some(h);
            c
        }),
        |c: &RunCase| {
            let dir = ctx.tmp();
            let p = Prob::new(&c.prob);
            let mut opt = c
                .optimizer(&p)
                .add_observer(Observer::new().with_stage1_tracking().with_stage2_tracking())
                .with_checkpointing(ckcfg(&dir.0, 1, true, false))
                .map_err(|e| e.to_string())?;
            let r = opt.run();
            if p.log.ranaway() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            let cks = read_all(&dir.0)?;
            let p1 = Prob::new(&c.prob);
            let Some((_, best)) = stage1(c, &p1) else { return Err("Stage 1 fails although no call does".into()) };
            let known = p1.log.points().iter().any(|x| !x.1.is_nan());
            if known && !c.parallel {
                let log = p.log.points();
                if let Some((x, f)) = log.get(p1.log.obj() as usize) {
                    ensure!(!f.is_nan() || !same_vec(x, &best), "the first local search starts at {x:?}, not a number there");
                }
            }
            let rules = Rules::of(c);
            let admissible = |x: &[f64]| !c.excl || c.prob.inside(x);
            let mut nan_found = false;
            let mut prev: Option<St> = None;
            for (_, k) in &cks {
                let st = state_of(k);
                ensure!(!st.threshold.is_nan(), "after {} trials the merit threshold is not a number: it blocks every trial", st.done);
                nan_found |= st.found.iter().any(|s| s.1.is_nan());
                let numbers: Vec<f64> = st.found.iter().filter(|s| admissible(&s.0) && !s.1.is_nan()).map(|s| s.1).collect();
                if !numbers.is_empty() {
                    let m = numbers.iter().cloned().fold(f64::INFINITY, f64::min);
                    for (x, f) in &st.set {
                        // (each within the tolerance of the first of the set)
                        let tol = if m.is_finite() && f.is_finite() { 2.0 * rules.tol(*f, m) } else { 0.0 };
                        ensure!(*f <= m + tol, "after {} trials the solution set holds {f:?} at {x:?} although a local search found {m:?}", st.done);
                    }
                }
                // one trial at a time: only trials with a number start a search, and one that has
                // a number is not turned away while no local solution has one
                if let (Some(p), 1) = (&prev, rules.batch) {
                    let (x, f) = &order_of(&c.prob, k)[p.done];
                    let launched = st.found.len() > p.found.len();
                    ensure!(!(f.is_nan() && launched), "the trial {x:?}, not a number, starts a local search");
                    let far = p.found.iter().all(|s| !(dist2(x, &s.0) <= c.df * c.df));
                    let none = p.found.iter().all(|s| s.1.is_nan());
                    ensure!(!(none && far && !f.is_nan()) || launched, "no local solution has a number, and the trial {x:?} with {f:?} is turned away");
                }
                prev = Some(st);
            }
            if let Ok(s) = &r {
                let b = s.best_solution().map(|b| b.objective);
                let m = set_vec(s).iter().map(|x| x.1).filter(|f| !f.is_nan()).fold(f64::NAN, f64::min);
                ensure!(b.is_some_and(|b| same(b, m)), "the best solution has {b:?}, the least number in the set is {m:?}");
                if let Some(l) = &prev {
                    let any = l.found.iter().any(|s| admissible(&s.0) && !s.1.is_nan());
                    ensure!(!any || !b.unwrap().is_nan(), "the best solution is not a number although a local search found one");
                }
            }
            if let Some(o) = opt.observer() {
                if let (Some(s1), true) = (o.stage1(), known) {
                    ensure!(!s1.best_objective().is_nan(), "the observer's best of Stage 1 is not a number although a point has one");
                }
                if let (Some(s2), Ok(s)) = (o.stage2(), &r) {
                    if let (Some(b), true) = (s.best_solution(), !cks.is_empty()) {
                        ensure!(same(s2.best_objective(), b.objective), "the observer's best is {:?}, the run's {:?}", s2.best_objective(), b.objective);
                    }
                }
            }
            let log = p.log.points();
            let bad = log.iter().filter(|x| !x.1.is_finite()).count();
            Ok(Info::nt(bad > 0 && bad < log.len() && r.is_ok()).label(nan_found, "a local solution is not a number").label(r.is_err(), "error").label(bad == 0, "hole missed"))
        },
    );
    ctx.sub(
        "sets",
        "solution sets holding every kind of value; non-trivial when a number and a value that is none occur",
        ctx.n(20000, 500000),
        || prop::collection::vec(0u8..13, 0..7).prop_map(|vals| Sets { vals }),
        |c: &Sets| {
            let v: Vec<f64> = c.vals.iter().map(|k| special(*k)).collect();
            let set = SolutionSet {
                solutions: Array1::from(v.iter().enumerate().map(|(i, f)| LocalSolution { point: Array1::from(vec![i as f64]), objective: *f }).collect::<Vec<_>>()),
            };
            let b = set.best_solution();
            ensure!(b.is_some() == !v.is_empty(), "best of {} solutions: {b:?}", v.len());
            if let Some(b) = b {
                let mut o = v.clone();
                o.sort_by(order);
                ensure!(same(b.objective, o[0]), "the best of {v:?} is said to be {:?}", b.objective);
                let at = b.point[0] as usize;
                ensure!(same(v[at], b.objective), "the best solution's point does not belong to its value");
            }
            Ok(Info::nt(v.iter().any(|f| f.is_nan()) && v.iter().any(|f| !f.is_nan())))
        },
    );
}
