//! C16 (bounds), C17 (constraints)
use super::b_stage2::history;
use super::common::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::model::*;
use crate::prob::*;
use globalsearch::local_solver::runner::LocalSolver;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::{LocalSolution, SolutionSet};
use ndarray::Array1;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// boxes whose upper bound is a rounded sum, of very different scales and positions
fn odd_box(max_dim: usize) -> BoxedStrategy<(Vec<f64>, Vec<f64>)> {
    let one = (
        prop_oneof![3 => -10.0..10.0f64, 1 => Just(0.0), 1 => -1e8..1e8f64, 1 => -1e-6..1e-6f64, 1 => Just(-1.0 / 3.0), 1 => Just(1e12)],
        prop_oneof![4 => 0.1..20.0f64, 1 => Just(0.7), 1 => 1e-7..1e-3f64, 1 => 1e3..1e7f64],
    )
        .prop_map(|(l, w)| {
            // at least a few thousand floating point numbers inside
            let w: f64 = if w < l.abs() * 1e-12 { l.abs() * 1e-9 } else { w };
            (l, w)
        });
    prop::collection::vec(one, 1..=max_dim).prop_map(|v| v.into_iter().unzip()).boxed()
}
/// runs that tend to leave the box
fn leaving() -> BoxedStrategy<RunCase> {
    (
        prop_oneof![2 => run_case(ROpt { p: POpt { smooth: true, ..PLAIN }, target: false, auto_batch: true, ..RUN }), 2 => rich_case(ROpt { auto_batch: true, ..RUN }), 1 => run_case(ROpt { auto_batch: true, ..RUN })],
        prop::collection::vec(prop_oneof![2 => Just(-0.1), 2 => Just(1.05), 1 => Just(1.6), 2 => 0.0..1.0f64, 1 => Just(0.0), 1 => Just(1.0)], 4),
        prop_oneof![1 => Just(None), 2 => (prop_oneof![lbfgs(mt()), steepest(mt()), neldermead(), trust(), newtoncg(mt())]).prop_map(Some)],
        prop_oneof![6 => Just(None), 1 => (0u8..3, 0.2..0.8f64, any::<bool>()).prop_map(|(what, cut, below)| Some(Hole { what, cut, below, w: 0.0 }))],
    )
        .prop_map(|(mut c, center, solver, hole)| {
            let d = c.prob.dim();
            c.prob.center = (0..d).map(|i| center[i % center.len()]).collect();
            if let (Some(s), Kind::Quad | Kind::DoubleWell | Kind::Rastrigin | Kind::Cosine) = (solver, c.prob.kind) {
                c.solver = s;
            }
            c.prob.hole = hole;
            c.excl = true;
            c
        })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Cob {
    prob: ProbSpec,
    solver: Solver,
    start: Vec<f64>,
}

pub fn c16(ctx: &Ctx) {
    ctx.sub(
        "exclusion",
        "a run with out-of-bounds exclusion and optima outside the box, all saved states; non-trivial when a local solution outside the box was found",
        ctx.n(20000, 500000),
        leaving,
        |c: &RunCase| {
            let h = history(ctx, c, |o| o)?;
            let s = &c.prob;
            let mut outside = 0;
            let mut inside = 0;
            for (n, k) in &h.cks {
                for (x, f) in k.solution_set.as_ref().map(set_vec).unwrap_or_default() {
                    ensure!(s.inside(&x), "after {n} trials the solution set holds {x:?} ({f:?}), which is out of bounds");
                }
            }
            if let Some((_, k)) = h.cks.last() {
                for (x, _) in sols_vec(&k.distance_filter_solutions) {
                    if s.inside(&x) { inside += 1 } else { outside += 1 }
                }
            }
            match &h.result {
                Some(r) => {
                    ensure!(!r.is_empty(), "success with an empty solution set");
                    for (x, f) in r {
                        ensure!(s.inside(x), "returned {x:?} ({f:?}), which is out of bounds");
                    }
                }
                None => {
                    // a run that got through must not fail for want of solutions if it has one
                    let done = h.cks.last().is_some_and(|(n, _)| *n >= c.iters);
                    ensure!(!done || inside == 0 || h.p.log.ranaway(), "the run fails although it found {inside} solutions inside the bounds");
                }
            }
            Ok(Info::nt(outside > 0)
                .label(outside > 0 && inside > 0, "inside and outside")
                .label(outside > 0 && inside == 0, "only outside")
                .label(h.result.is_none(), "error")
                .label(s.hole.is_some(), "not a number"))
        },
    );
    ctx.sub(
        "exclusion toggled",
        "the same run with and without exclusion; without it the outside solutions are kept; non-trivial when the two results differ",
        ctx.n(6000, 150000),
        leaving,
        |c: &RunCase| {
            let mut c = c.clone();
            c.excl = false;
            let h = history(ctx, &c, |o| o)?;
            if h.p.log.ranaway() || c.prob.hole.is_some() {
                return Ok(Info::default());
            }
            let (Some(r), Some((_, k))) = (&h.result, h.cks.last()) else { return Ok(Info::default()) };
            let want = Rules::of(&c).fold(&c.prob, &sols_vec(&k.distance_filter_solutions));
            ensure!(same_pts(r, &want), "without exclusion the run returns {} but its local solutions give {}", show(r), show(&want));
            // switched on and off again it changes nothing
            let p = Prob::new(&c.prob);
            let r2 = c.optimizer(&p).exclude_out_of_bounds().set_exclude_out_of_bounds(false).run().map_err(|e| e.to_string())?;
            ensure!(same_pts(r, &set_vec(&r2)), "switching exclusion on and off again changes the result");
            Ok(Info::nt(r.iter().any(|x| !c.prob.inside(&x.0))).label(true, "kept outside solutions"))
        },
    );
    ctx.sub(
        "constrained solver",
        "one search of the bound-aware solver from a generated start in the box; non-trivial when the unconstrained optimum lies outside or the search touches a bound",
        ctx.n(25000, 800000),
        || {
            (
                prop_oneof![3 => prob(POpt { max_dim: 5, odd_scales: true, ..PLAIN }), 1 => prob(POpt { cons: true, ..PLAIN })],
                prop::option::of(odd_box(5)),
                cobyla(),
                prop::collection::vec(frac(), 5),
                prop::collection::vec(prop_oneof![2 => Just(-0.3), 2 => Just(1.2), 2 => 0.0..1.0f64, 1 => Just(1.0), 1 => Just(0.0)], 5),
                prop_oneof![4 => Just(None), 1 => prop_oneof![Just(3.0), Just(50.0), Just(1e-3)].prop_map(Some)],
                prop_oneof![3 => Just(None), 1 => super::j_faults::slab((0u8..4).boxed()).prop_map(Some)],
            )
                .prop_map(|(mut prob, b, mut solver, start, center, step, hole)| {
                    prob.hole = hole;
                    if let (Some((lo, width)), true) = (b, prob.cons.is_empty()) {
                        prob.lo = lo;
                        prob.width = width;
                    }
                    let d = prob.dim();
                    prob.center = (0..d).map(|i| center[i % center.len()]).collect();
                    if let (Some(f), Solver::Cobyla { step, .. }) = (step, &mut solver) {
                        *step = f;
                    }
                    Cob { prob, solver, start }
                })
        },
        |c: &Cob| {
            let p = Prob::new(&c.prob);
            let (t, cfg) = c.solver.build();
            let x0 = unit_to_box(&c.prob, &c.start);
            let ls = LocalSolver::new(p.clone(), t, cfg);
            let r = ls.solve(Array1::from(x0));
            let s = &c.prob;
            let mut touched = false;
            for (x, f) in p.log.points() {
                ensure!(s.inside(&x), "the solver evaluates {x:?} ({f:?}), which is out of bounds");
                touched |= (0..x.len()).any(|i| x[i] == s.lo[i] || x[i] == s.hi(i));
            }
            if let Ok(r) = &r {
                ensure!(s.inside(&r.point.to_vec()), "the solver returns {}, which is out of bounds", r.point);
            }
            Ok(Info::nt(touched).label(touched, "touches a bound").label(r.is_err(), "error").label(s.hole.is_some(), "not a number or failing"))
        },
    );
    ctx.sub(
        "stage 1",
        "Stage 1 and its public parts on boxes of odd positions and scales; non-trivial when a combination leaves the box before clamping",
        ctx.n(8000, 250000),
        || {
            (super::c_stage1::stage1_case(POpt { max_dim: 5, ..PLAIN }), odd_box(5)).prop_map(|(mut c, (lo, width))| {
                c.prob.lo = lo;
                c.prob.width = width;
                c
            })
        },
        |c: &RunCase| {
            let p = Prob::new(&c.prob);
            let s = &c.prob;
            let Some((set, best)) = stage1(c, &p) else { return Err("Stage 1 fails without constraints".into()) };
            for (x, f) in p.log.points().iter().chain(&set) {
                ensure!(s.inside(x), "Stage 1 evaluates or returns {x:?} ({f:?}) outside the bounds");
            }
            ensure!(s.inside(&best), "the start point {best:?} is out of bounds");
            let ss = ScatterSearch::new(p.clone(), c.params()).map_err(|e| e.to_string())?.parallel(c.parallel);
            for x in ss.generate_stratified_samples(10).map_err(|e| e.to_string())? {
                ensure!(s.inside(&x.to_vec()), "the sample {x} is out of bounds");
            }
            for w in set.windows(2).take(4) {
                for x in ss.combine_points(&Array1::from(w[0].0.clone()), &Array1::from(w[1].0.clone()), c.seed) {
                    ensure!(s.inside(&x.to_vec()), "the combination {x} is out of bounds");
                }
            }
            let on = |x: &[f64]| (0..x.len()).any(|i| x[i] == s.lo[i] || x[i] == s.hi(i));
            Ok(Info::nt(p.log.points().iter().skip(3).any(|x| on(&x.0))))
        },
    );
}

// ---- C17 -----------------------------------------------------------------------------------------
fn constrained(extra: bool) -> BoxedStrategy<RunCase> {
    let k = if extra { prop_oneof![9 => 0u8..9, 2 => Just(10u8), 2 => Just(11u8), 1 => Just(9u8)].boxed() } else { (0u8..9).boxed() };
    (super::c_stage1::stage1_case(POpt { cons: true, max_dim: 4, ..PLAIN }), many_cons(prop::collection::vec(k, 1..5).boxed()))
        .prop_map(|(mut c, cons)| {
            for i in 0..c.prob.dim() {
                // boxes that straddle the catalogue's regions
                c.prob.lo[i] = -1.0 - c.prob.lo[i].abs() / 2.0 - 0.3;
                c.prob.width[i] = c.prob.width[i].clamp(2.5, 9.0);
            }
            c.prob.cons = cons;
            c.solver = Solver::Cobyla { max_iter: 40, step: 0.5, ftol_rel: 1e-6, ftol_abs: 1e-8, xtol_rel: 0.0, xtol_abs: vec![] };
            c
        })
        .boxed()
}
/// convex problems for the constrained solver: quadratic objective, convex feasible set, a feasible start
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Convex {
    prob: ProbSpec,
    start: Vec<f64>,
    step: f64,
    whole_run: bool,
}
fn convex() -> BoxedStrategy<Convex> {
    (
        (1usize..=3, prop::collection::vec((2.0..4.0f64, 2.0..4.0f64), 3), prop::collection::vec(-0.4..1.4f64, 3)),
        many_cons(prop::collection::vec(prop_oneof![Just(0u8), Just(1u8), Just(2u8), Just(3u8), Just(6u8), Just(7u8), Just(5u8)], 1..5).boxed()),
        prop::collection::vec(frac(), 3),
        prop_oneof![Just(0.5), Just(0.1), Just(1.0)],
        prop_oneof![3 => Just(false), 1 => Just(true)],
    )
        .prop_map(|((d, b, c), cons, start, step, whole_run)| Convex {
            prob: ProbSpec {
                kind: Kind::Quad,
                lo: b[..d].iter().map(|x| -x.0).collect(),
                width: b[..d].iter().map(|x| x.0 + x.1).collect(),
                center: c[..d].to_vec(),
                scale: 1.0,
                offset: 0.0,
                tilt: 0.0,
                freq: 1.0,
                cons,
                grad: true,
                hess: true,
                hole: None,
                fault: None,
            },
            start,
            step,
            whole_run,
        })
        .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Report {
    cons: Vec<u8>,
    dim: usize,
    sols: Vec<(Vec<f64>, f64)>,
    descriptions: Option<usize>,
}

pub fn c17(ctx: &Ctx) {
    ctx.assume("feasibility of the constrained solver's result is required up to 1e-3 on convex problems with generous iteration limits; exact agreement with the numerical library is C23's");
    ctx.sub(
        "stage 1",
        "Stage 1 of a constrained problem, with values that are not numbers, negative zeros and violations by next to nothing; non-trivial when part of the box is infeasible",
        ctx.n(16000, 500000),
        || constrained(true),
        |c: &RunCase| {
            let p = Prob::new(&c.prob);
            let s = &c.prob;
            let hopeless = s.cons.contains(&9);
            let mut ss = ScatterSearch::new(p.clone(), c.params()).map_err(|e| e.to_string())?.parallel(c.parallel);
            let custom: Vec<Vec<f64>> = c.custom_points().map(|a| a.outer_iter().map(|r| r.to_vec()).collect()).unwrap_or_default();
            if !custom.is_empty() {
                ss = ss.with_custom_points(custom.iter().map(|x| Array1::from(x.clone())).collect());
            }
            let r = ss.run();
            let log = p.log.points();
            for (x, _) in &log {
                ensure!(s.feasible(x), "Stage 1 evaluates the infeasible point {x:?} (constraints {:?})", s.cons.iter().map(|&k| constraint_value(k, x)).collect::<Vec<_>>());
            }
            match r {
                Err(e) => {
                    ensure!(
                        matches!(e, globalsearch::scatter_search::ScatterSearchError::NoFeasibleCandidates { .. }),
                        "a lack of feasible points is reported as {e}"
                    );
                    Ok(Info::nt(hopeless).label(true, "no feasible candidates").label(hopeless, "nothing feasible"))
                }
                Ok((set, best)) => {
                    ensure!(!hopeless, "success although no point is feasible");
                    for (x, _) in &set {
                        ensure!(s.feasible(&x.to_vec()), "the reference set holds the infeasible point {x}");
                    }
                    ensure!(s.feasible(&best.to_vec()), "the start point {best} is infeasible");
                    for x in custom.iter().filter(|x| s.feasible(x)) {
                        ensure!(log.iter().any(|y| same_vec(&y.0, x)), "the feasible custom point {x:?} was not used");
                    }
                    let bad = custom.iter().filter(|x| !s.feasible(x)).count();
                    Ok(Info::nt(bad > 0 || !s.feasible(&s.lo) || log.len() > c.pop)
                        .label(bad > 0, "infeasible custom point")
                        .label(custom.len() >= 100, "100+ custom points")
                        .label(custom.len() >= 100 && c.parallel, "100+ custom points in parallel")
                        .label(s.cons.contains(&10), "not a number")
                        .label(s.cons.contains(&11), "tiny violation"))
                }
            }
        },
    );
    ctx.sub(
        "solver",
        "constrained local searches and runs on convex problems whose unconstrained optimum may be infeasible; non-trivial when the optimum without constraints violates one",
        ctx.n(12000, 300000),
        convex,
        |c: &Convex| {
            let s = &c.prob;
            let d = s.dim();
            let solver = Solver::Cobyla { max_iter: 2000, step: c.step, ftol_rel: 1e-8, ftol_abs: 1e-8, xtol_rel: 0.0, xtol_abs: vec![] };
            let p = Prob::new(s);
            let sols: Pts = if c.whole_run {
                let (t, cfg) = solver.build();
                let params = globalsearch::types::OQNLPParams {
                    iterations: 6,
                    population_size: 12,
                    wait_cycle: 3,
                    threshold_factor: 0.2,
                    distance_factor: 0.75,
                    local_solver_type: t,
                    local_solver_config: cfg,
                    seed: 1,
                };
                match globalsearch::oqnlp::OQNLP::new(p.clone(), params).map_err(|e| e.to_string())?.run() {
                    Ok(r) => set_vec(&r),
                    Err(_) => return Ok(Info::default().label(true, "solver error")),
                }
            } else {
                // a feasible start: between the generated point and a central one
                let u = unit_to_box(s, &c.start);
                let mut t = 1.0;
                let mut x0 = u.clone();
                while !s.feasible(&x0) {
                    t *= 0.5;
                    x0 = u.iter().map(|v| v * t).collect();
                }
                let (ty, cfg) = solver.build();
                // (the numerical library reports its round-off limit as a failure)
                let Ok(r) = LocalSolver::new(p.clone(), ty, cfg).solve(Array1::from(x0)) else {
                    return Ok(Info::default().label(true, "solver error"));
                };
                vec![(r.point.to_vec(), r.objective)]
            };
            for (x, _) in &sols {
                for &k in &s.cons {
                    let v = constraint_value(k, x);
                    ensure!(v >= -1e-3, "the solution {x:?} violates constraint {k} by {:e}", -v);
                }
                ensure!(s.inside(x), "the solution {x:?} is out of bounds");
            }
            let opt: Vec<f64> = (0..d).map(|i| (s.lo[i] + s.width[i] * s.center[i]).clamp(s.lo[i], s.hi(i))).collect();
            Ok(Info::nt(!s.feasible(&opt)).label(c.whole_run, "whole run"))
        },
    );
    ctx.sub(
        "report",
        "the constraint report of a generated solution set; non-trivial when one constraint is satisfied and another violated",
        ctx.n(20000, 500000),
        || {
            (
                many_cons(prop::collection::vec(0u8..12, 0..5).boxed()),
                1usize..4,
                prop::collection::vec((prop::collection::vec(-4.0..4.0f64, 3), -5.0..5.0f64), 0..5),
                prop::option::of(0usize..6),
            )
                .prop_map(|(cons, dim, mut sols, descriptions)| {
                    for s in &mut sols {
                        s.0.truncate(dim);
                    }
                    Report { cons, dim, sols, descriptions }
                })
        },
        |c: &Report| {
            let spec = ProbSpec {
                kind: Kind::Quad,
                lo: vec![-4.0; c.dim],
                width: vec![8.0; c.dim],
                center: vec![0.5; c.dim],
                scale: 1.0,
                offset: 0.0,
                tilt: 0.0,
                freq: 1.0,
                cons: c.cons.clone(),
                grad: true,
                hess: true,
                hole: None,
                fault: None,
            };
            let p = Prob::new(&spec);
            let set = SolutionSet {
                solutions: Array1::from(c.sols.iter().map(|(x, f)| LocalSolution { point: Array1::from(x.clone()), objective: *f }).collect::<Vec<_>>()),
            };
            let names: Vec<String> = (0..c.descriptions.unwrap_or(0)).map(|i| format!("g{i}(x) = h{i}")).collect();
            let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            let text = set.display_with_constraints(&p, c.descriptions.map(|_| &refs[..]));
            let auto = set.display_with_problem(&p);
            let plain = format!("{set}");
            if c.cons.is_empty() {
                ensure!(auto == plain, "the report of an unconstrained problem is not the plain one");
            } else {
                ensure!(auto == set.display_with_constraints(&p, None), "the automatic report differs from the one with constraints");
            }
            let blocks: Vec<&str> = text.split("Solution #").skip(1).collect();
            ensure!(blocks.len() == c.sols.len(), "{} solutions reported out of {}", blocks.len(), c.sols.len());
            let (mut sat, mut vio) = (0, 0);
            for (b, (x, _)) in blocks.iter().zip(&c.sols) {
                let lines: Vec<&str> = b.lines().filter(|l| l.trim_start().starts_with("Constraint ") && !l.contains("violations:")).collect();
                ensure!(lines.len() == c.cons.len(), "{} constraint lines for {} constraints", lines.len(), c.cons.len());
                for (j, (l, &k)) in lines.iter().zip(&c.cons).enumerate() {
                    let v = constraint_value(k, x);
                    let ok = v >= 0.0;
                    if ok { sat += 1 } else { vio += 1 }
                    ensure!(
                        l.contains('✓') == ok && l.contains('✗') != ok && l.contains("(satisfied)") == ok && l.contains("(violated") != ok,
                        "constraint {} has value {v:?} at {x:?} but the report says: {l}",
                        j + 1
                    );
                    ensure!(l.trim_start().starts_with(&format!("Constraint {}", j + 1)), "constraint {} is reported as: {l}", j + 1);
                    if v.is_finite() {
                        ensure!(l.contains(&format!("{v:.6e}")), "constraint value {v:.6e} missing in: {l}");
                        ensure!(ok || l.contains(&format!("{:.6}", -v)), "violation {:.6} missing in: {l}", -v);
                    }
                    for (i, n) in names.iter().enumerate() {
                        ensure!(l.contains(n.as_str()) == (i == j), "description {n} is not at its constraint: {l}");
                    }
                }
            }
            Ok(Info::nt(sat > 0 && vio > 0).label(!names.is_empty(), "descriptions"))
        },
    );
}
