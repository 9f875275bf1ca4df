//! C01 (honest solutions), C02 (coherent solution sets)
use super::common::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::prob::*;
use ndarray::Array1;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LocalCase {
    pub prob: ProbSpec,
    pub solver: Solver,
    pub start: Vec<f64>,
}
pub fn local_case(o: POpt) -> BoxedStrategy<LocalCase> {
    (prob(o).prop_flat_map(|p| (Just(p.clone()), solver_for(&p))), prop::collection::vec(frac(), o.max_dim))
        .prop_map(|((prob, solver), start)| LocalCase { prob, solver, start })
        .boxed()
}

/// Each solution's objective is what the objective function returns at its point. The
/// constrained solver rebuilds its final point from a simplex, which may round the coordinates
/// in the last places; then the value must be one the function returned at a point equal up to
/// that rounding.
pub fn honest(spec: &ProbSpec, s: &Pts, log: &[(Vec<f64>, f64)], rounding: bool) -> Result<(), String> {
    for (i, (x, f)) in s.iter().enumerate() {
        ensure!(x.len() == spec.dim(), "solution {i} has dimension {} instead of {}", x.len(), spec.dim());
        ensure!(x.iter().all(|v| v.is_finite()), "solution {i} has a non-finite coordinate {x:?}");
        let v = spec.eval(x);
        let mut ok = v.is_some_and(|v| same(v, *f));
        if !ok && rounding {
            ok = log.iter().any(|(y, g)| {
                same(*g, *f) && (0..x.len()).all(|k| (x[k] - y[k]).abs() <= 1e-10 * (spec.width[k] + x[k].abs()))
            });
        }
        ensure!(ok, "solution {i} at {x:?} reports objective {f:?} but the function returns {v:?}");
    }
    Ok(())
}

pub fn c01(ctx: &Ctx) {
    let o = ROpt { p: POpt { max_dim: 5, odd_scales: true, ..PLAIN }, auto_batch: true, target: true, ..RUN };
    ctx.sub(
        "run",
        "a whole optimization of a generated problem; non-trivial when it returns at least one solution and launched more than one local search",
        ctx.n(12000, 400000),
        || prop_oneof![3 => run_case(o), 1 => run_case(ROpt { p: POpt { cons: true, ..PLAIN }, ..o })],
        |c: &RunCase| {
            let p = Prob::new(&c.prob);
            match c.optimizer(&p).run() {
                Err(e) => Ok(Info::nt(false).label(true, &format!("err:{}", e.to_string().chars().take(40).collect::<String>()))),
                Ok(s) => {
                    let s = set_vec(&s);
                    ensure!(!s.is_empty(), "empty solution set returned as success");
                    honest(&c.prob, &s, &p.log.points(), c.solver.name() == "cobyla")?;
                    Ok(Info::nt(p.log.obj() as usize > c.pop + 40)
                        .label(s.len() > 1, "several")
                        .label(true, c.solver.name())
                        .label(c.batch_size() > 1, "batched"))
                }
            }
        },
    );
    ctx.sub(
        "local",
        "one local search from a generated start; non-trivial when it improved on its start",
        ctx.n(40000, 1500000),
        || prop_oneof![4 => local_case(POpt { max_dim: 6, odd_scales: true, ..PLAIN }), 1 => local_case(POpt { cons: true, ..PLAIN })],
        |c: &LocalCase| {
            let p = Prob::new(&c.prob);
            let (t, cfg) = c.solver.build();
            let x0 = unit_to_box(&c.prob, &c.start);
            let f0 = c.prob.value(&x0);
            let log = p.log.clone();
            let ls = globalsearch::local_solver::runner::LocalSolver::new(p, t, cfg);
            match ls.solve(Array1::from(x0.clone())) {
                Err(e) => Ok(Info::nt(false).label(true, &format!("err:{}", e.to_string().chars().take(60).collect::<String>()))),
                Ok(s) => {
                    honest(&c.prob, &vec![(s.point.to_vec(), s.objective)], &log.points(), c.solver.name() == "cobyla")?;
                    Ok(Info::nt(s.objective < f0).label(true, c.solver.name()))
                }
            }
        },
    );
}

pub fn coherent(c: &RunCase, s: &Pts) -> Result<(), String> {
    let f0 = s[0].1;
    for i in 0..s.len() {
        let tol = c.abs_tol.max(c.rel_tol * f0.abs().max(s[i].1.abs()));
        ensure!(
            (s[i].1 - f0).abs() <= tol,
            "solution {i} has objective {:?}, not within {tol:e} of the first one's {f0:?}",
            s[i].1
        );
        for j in 0..i {
            let d = dist2(&s[i].0, &s[j].0);
            ensure!(
                d >= c.df * c.df,
                "solutions {j} and {i} are {:e} apart, less than the distance factor {:e}",
                d.sqrt(),
                c.df
            );
        }
    }
    Ok(())
}

pub fn c02(ctx: &Ctx) {
    let o = ROpt { auto_batch: true, ..RUN };
    ctx.sub(
        "run",
        "a whole optimization; non-trivial when at least two solutions are returned",
        ctx.n(25000, 800000),
        || run_case(o),
        |c: &RunCase| {
            let p = Prob::new(&c.prob);
            let Ok(set) = c.optimizer(&p).run() else { return Ok(Info::default().label(true, "err")) };
            let s = set_vec(&set);
            ensure!(!s.is_empty(), "empty set");
            coherent(c, &s)?;
            let best = set.best_solution().map(|b| b.objective);
            let min = s.iter().map(|x| x.1).fold(f64::INFINITY, f64::min);
            ensure!(best == Some(min), "best solution is {best:?}, minimum of the set is {min:?}");
            Ok(Info::nt(s.len() > 1)
                .label(s.len() == 1, "one")
                .label(s.len() == 2, "two")
                .label(s.len() > 2, "more")
                .label(c.batch_size() > 1, "batched"))
        },
    );
}
