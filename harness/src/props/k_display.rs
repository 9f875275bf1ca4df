//! C26 (solution sets, reports and names tell the same story)
use crate::ck::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::prob::*;
use globalsearch::types::{LocalSolution, LocalSolverType, OQNLPCheckpoint, SolutionSet};
use ndarray::{Array1, s};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SetCase {
    sols: Vec<(Vec<u64>, u64)>,
    layout: u8,
    cons: Vec<u8>,
    descs: Option<Vec<String>>,
}
fn bits() -> BoxedStrategy<u64> {
    prop_oneof![
        8 => (-60i32..60).prop_map(|k| (k as f64 / 7.0).to_bits()),
        3 => (-3i32..4).prop_map(|k| (k as f64).to_bits()),
        2 => any::<u64>(),
        1 => prop::sample::select(vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN, 5e-324, 1.0 - 1e-16, 9.999999995e7, -999999999.5, 0.1 + 0.2]).prop_map(|v| v.to_bits()),
    ]
    .boxed()
}
fn set_case() -> BoxedStrategy<SetCase> {
    (
        prop_oneof![1 => Just(0usize), 6 => 1usize..5, 1 => 5usize..40],
        prop_oneof![12 => 1usize..5, 2 => 5usize..30, 1 => 100usize..500],
        0u8..3,
        many_cons(prop::collection::vec(0u8..12, 0..4).boxed()),
    )
        .prop_flat_map(|(n, d, layout, cons)| {
            (
                prop::collection::vec((prop::collection::vec(bits(), d), bits()), n),
                Just(layout),
                Just(cons),
                proptest::option::of(prop_oneof![6 => prop::collection::vec("[a-z0-9 <>=+✓✗:]{0,12}", 0..5), 1 => prop::collection::vec("[a-z0-9 <>=+✓✗:]{0,12}", 5..45)]),
            )
        })
        .prop_map(|(sols, layout, cons, descs)| SetCase { sols, layout, cons, descs })
        .boxed()
}
fn lay<T: Clone>(v: Vec<T>, layout: u8) -> Array1<T> {
    match layout {
        1 => {
            let mut w = v.clone();
            w.reverse();
            Array1::from(w).slice_move(s![..;-1])
        }
        2 => {
            let mut w = vec![];
            for x in v {
                w.push(x.clone());
                w.push(x);
            }
            Array1::from(w).slice_move(s![..;2])
        }
        _ => Array1::from(v),
    }
}
/// does the printed number stand for `v`, to the printed precision?
fn stands_for(text: &str, v: f64, digits: i32) -> bool {
    let t = text.trim();
    match t.parse::<f64>() {
        Ok(p) if v.is_nan() => p.is_nan(),
        Ok(p) if v.is_infinite() || v == 0.0 => p == v,
        // subnormal numbers and the largest ones round coarsely (or overflow) when read back
        Ok(p) => p == v || (p - v).abs() <= v.abs() * 10f64.powi(-digits) || (v.abs() < 1e-300 && (p - v).abs() < 1e-310) || (v.abs() > 1.7e308 && p.is_infinite() && (p > 0.0) == (v > 0.0)),
        Err(_) => false,
    }
}
fn better_eq(a: f64, b: f64) -> bool {
    b.is_nan() || (!a.is_nan() && a <= b)
}
/// read a report back: (count, best, [(objective, parameters, constraint lines)])
type Report = (usize, Option<String>, Vec<(String, Vec<String>, Vec<String>)>);
fn read(text: &str) -> Result<Report, String> {
    let mut count = None;
    let mut best = None;
    let mut sols: Vec<(String, Vec<String>, Vec<String>)> = vec![];
    let mut in_params = false;
    let mut params = String::new();
    for l in text.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("Total solutions:") {
            count = Some(r.trim().parse::<usize>().map_err(|e| format!("{l:?}: {e}"))?);
        } else if let Some(r) = t.strip_prefix("Best objective value:") {
            ensure!(best.is_none(), "two best values in {text}");
            best = Some(r.trim().to_string());
        } else if let Some(r) = t.strip_prefix("Solution #") {
            ensure!(r.trim() == (sols.len() + 1).to_string(), "solution {} is announced as {t:?}", sols.len() + 1);
            sols.push((String::new(), vec![], vec![]));
            in_params = false;
        } else if let Some(r) = t.strip_prefix("Objective:") {
            sols.last_mut().ok_or("objective before a solution")?.0 = r.trim().to_string();
        } else if t.starts_with("Parameters:") {
            in_params = true;
            params.clear();
        } else if t.starts_with("Constraint violations:") {
            in_params = false;
        } else if t.starts_with("Constraint ") {
            sols.last_mut().ok_or("constraint before a solution")?.2.push(t.to_string());
        } else if in_params {
            params.push_str(t);
            if t.ends_with(']') {
                in_params = false;
                let inner = params.trim().trim_start_matches('[').trim_end_matches(']');
                let v: Vec<String> = inner.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
                sols.last_mut().ok_or("parameters before a solution")?.1 = v;
            }
        }
    }
    Ok((count.ok_or("no number of solutions")?, best, sols))
}
fn agrees(what: &str, text: &str, set: &[(Vec<f64>, f64)], best: Option<f64>) -> Result<Report, String> {
    let r = read(text).map_err(|e| format!("{what}: {e}"))?;
    ensure!(r.0 == set.len(), "{what} states {} solutions, the set has {}", r.0, set.len());
    match (&r.1, best) {
        (None, None) => {}
        (Some(t), Some(b)) => ensure!(stands_for(t, b, 8), "{what} states the best value {t}, it is {b:e}"),
        (t, b) => return Err(format!("{what} states the best value {t:?}, it is {b:?}")),
    }
    ensure!(r.2.len() == set.len(), "{what} lists {} of {} solutions", r.2.len(), set.len());
    for (i, ((o, p, _), (x, f))) in r.2.iter().zip(set).enumerate() {
        ensure!(stands_for(o, *f, 8), "{what}: objective of solution {i} printed as {o:?}, it is {f:e}");
        ensure!(p.len() == x.len(), "{what}: solution {i} printed with {} of {} coordinates", p.len(), x.len());
        for (t, v) in p.iter().zip(x) {
            ensure!(stands_for(t, *v, 8), "{what}: a coordinate of solution {i} printed as {t:?}, it is {v:e}");
        }
    }
    Ok(r)
}
fn line<'a>(text: &'a str, key: &str) -> Result<&'a str, String> {
    let v: Vec<&str> = text.lines().filter_map(|l| l.trim().strip_prefix(key)).collect();
    ensure!(v.len() == 1, "{} lines {key:?} in the printed checkpoint", v.len());
    Ok(v[0].trim())
}
fn checkpoint_report(k: &OQNLPCheckpoint) -> Result<(), String> {
    let text = format!("{k}");
    let int = |key: &str, v: String| -> Result<(), String> {
        let t = line(&text, key)?;
        ensure!(t == v, "printed checkpoint states {key} {t}, it is {v}");
        Ok(())
    };
    let num = |key: &str, v: f64, digits: i32| -> Result<(), String> {
        let t = line(&text, key)?;
        ensure!(stands_for(t, v, digits), "printed checkpoint states {key} {t}, it is {v:e}");
        Ok(())
    };
    int("Current iteration:", k.current_iteration.to_string())?;
    int("Timestamp:", k.timestamp.clone())?;
    let t = line(&text, "Elapsed time:")?;
    let e = t.strip_suffix('s').unwrap_or(t);
    ensure!(stands_for(e, k.elapsed_time, 10) || e.parse::<f64>().is_ok_and(|v| (v - k.elapsed_time).abs() <= 0.00501), "printed checkpoint states the elapsed time {t}, it is {:e}", k.elapsed_time);
    int("Unchanged cycles:", k.unchanged_cycles.to_string())?;
    num("Merit threshold:", k.merit_threshold, 8)?;
    int("Reference set size:", k.reference_set.len().to_string())?;
    int("Distance filter solutions:", k.distance_filter_solutions.len().to_string())?;
    int("Current seed:", k.current_seed.to_string())?;
    match &k.solution_set {
        None => int("Solution set:", "None".into())?,
        Some(s) => {
            int("Solution set:", format!("{} solutions", s.len()))?;
            if let Some(b) = s.best_solution() {
                num("Best objective:", b.objective, 8)?;
            }
        }
    }
    int("Population size:", k.params.population_size.to_string())?;
    int("Iterations:", k.params.iterations.to_string())?;
    int("Wait cycle:", k.params.wait_cycle.to_string())?;
    num("Threshold factor:", k.params.threshold_factor, 12)?;
    num("Distance factor:", k.params.distance_factor, 12)?;
    int("Local solver:", format!("{:?}", k.params.local_solver_type))?;
    int("Seed:", k.params.seed.to_string())?;
    match k.target_objective {
        None => int("Target objective:", "None".into())?,
        Some(t) => num("Target objective:", t, 8)?,
    }
    int("Exclude out of bounds:", k.exclude_out_of_bounds.to_string())?;
    num("Absolute tolerance:", k.abs_tol, 2)?;
    num("Relative tolerance:", k.rel_tol, 2)?;
    Ok(())
}

const NAMES: [(&str, LocalSolverType); 8] = [
    ("lbfgs", LocalSolverType::LBFGS),
    ("nelder-mead", LocalSolverType::NelderMead),
    ("neldermead", LocalSolverType::NelderMead),
    ("steepestdescent", LocalSolverType::SteepestDescent),
    ("trustregion", LocalSolverType::TrustRegion),
    ("newton-cg", LocalSolverType::NewtonCG),
    ("newtoncg", LocalSolverType::NewtonCG),
    ("cobyla", LocalSolverType::COBYLA),
];

pub fn c26(ctx: &Ctx) {
    ctx.assume("points of 500 or more coordinates are not generated: the array library abbreviates them when printing");
    ctx.sub(
        "sets",
        "a generated solution set (ties, zeros of both signs, non-finite values, any memory layout): accessors against the list it was made of, both reports read back; non-trivial when it has at least two solutions",
        ctx.n(60000, 1500000),
        set_case,
        |c: &SetCase| {
            let list: Vec<(Vec<f64>, f64)> = c.sols.iter().map(|(x, f)| (x.iter().map(|b| f64::from_bits(*b)).collect(), f64::from_bits(*f))).collect();
            let sols: Vec<LocalSolution> = list.iter().map(|(x, f)| LocalSolution { point: lay(x.clone(), c.layout), objective: *f }).collect();
            let set = SolutionSet { solutions: lay(sols, c.layout) };
            ensure!(set.len() == list.len(), "len() is {}, there are {}", set.len(), list.len());
            ensure!(set.is_empty() == list.is_empty(), "is_empty() is {} with {} solutions", set.is_empty(), list.len());
            let it: Vec<(Vec<f64>, f64)> = set.solutions().map(|l| (l.x().to_vec(), l.fun())).collect();
            ensure!(it.len() == list.len(), "iteration yields {} of {} solutions", it.len(), list.len());
            for (i, (x, f)) in list.iter().enumerate() {
                ensure!(same_vec(&it[i].0, x) && same(it[i].1, *f), "iteration yields {:?} as solution {i}, it is {:?}", it[i], (x, f));
                let l = &set[i];
                ensure!(same_vec(&l.point.to_vec(), x) && same(l.objective, *f), "indexing yields {l:?} as solution {i}");
                ensure!(same_vec(&l.x().to_vec(), x) && same(l.fun(), *f), "x() / fun() of solution {i} differ from its fields");
            }
            let best = set.best_solution().map(|b| (b.point.to_vec(), b.objective));
            match &best {
                None => ensure!(list.is_empty(), "no best solution among {}", list.len()),
                Some((x, f)) => {
                    ensure!(list.iter().any(|(y, g)| same_vec(x, y) && same(*f, *g)), "the best solution is not in the set");
                    for (_, g) in &list {
                        ensure!(better_eq(*f, *g), "best value {f:e} although the set has {g:e}");
                    }
                }
            }
            let best = best.map(|b| b.1);
            agrees("the report", &format!("{set}"), &list, best)?;
            let d = list.first().map_or(1, |l| l.0.len());
            let spec = ProbSpec {
                kind: Kind::Quad,
                lo: vec![-2.0; d],
                width: vec![4.0; d],
                center: vec![0.5; d],
                scale: 1.0,
                offset: 0.0,
                tilt: 0.0,
                freq: 1.0,
                cons: c.cons.clone(),
                grad: true,
                hess: true,
                hole: None,
                fault: None,
            };
            let p = Prob::new(&spec);
            let descs: Option<Vec<&str>> = c.descs.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
            for (what, text, descs) in [
                ("the report with constraints", set.display_with_constraints(&p, descs.as_deref()), descs),
                ("the report for the problem", set.display_with_problem(&p), None),
            ] {
                let r = agrees(what, &text, &list, best)?;
                for (i, ((_, _, lines), (x, _))) in r.2.iter().zip(&list).enumerate() {
                    ensure!(lines.len() == c.cons.len(), "{what}: solution {i} has {} lines for {} constraints", lines.len(), c.cons.len());
                    for (j, (l, &k)) in lines.iter().zip(&c.cons).enumerate() {
                        let v = constraint_value(k, x);
                        let head = format!("Constraint {}", j + 1);
                        let rest = l.strip_prefix(&head).ok_or(format!("{what}: {l:?} is not about constraint {}", j + 1))?;
                        let rest = match descs.as_ref().and_then(|d| d.get(j)) {
                            Some(d) => {
                                let rest = rest.trim_start();
                                rest.strip_prefix(&format!("[{d}]")).ok_or(format!("{what}: {l:?} does not show the description {d:?}"))?
                            }
                            None => rest,
                        };
                        let rest = rest.strip_prefix(':').ok_or(format!("{what}: odd line {l:?}"))?;
                        let mut w = rest.split_whitespace();
                        let mark = w.next().unwrap_or("");
                        let val = w.next().unwrap_or("");
                        let tail: Vec<&str> = w.collect();
                        let tail = tail.join(" ");
                        let ok = v >= 0.0;
                        ensure!(mark == if ok { "✓" } else { "✗" }, "{what}: {l:?}, the constraint's value is {v:e}");
                        ensure!(stands_for(val, v, 6), "{what}: {l:?}, the constraint's value is {v:e}");
                        if let Some(by) = tail.split("violated by ").nth(1).and_then(|t| t.trim_end_matches(')').parse::<f64>().ok()) {
                            let off = (by + v).abs();
                            ensure!(off <= 1e-6 * (1.0 + v.abs()) || by == -v || v.is_nan(), "{what}: {l:?}, the constraint's value is {v:e}");
                        }
                        ensure!(tail.contains("satisfied") == ok && tail.contains("violated") == !ok, "{what}: {l:?}, the constraint's value is {v:e}");
                    }
                }
            }
            let tie = list.iter().enumerate().any(|(i, a)| list[..i].iter().any(|b| a.1 == b.1));
            Ok(Info::nt(list.len() >= 2)
                .label(tie, "tied values")
                .label(list.iter().any(|l| l.1.is_nan()), "NaN objective")
                .label(list.is_empty(), "empty set")
                .label(c.layout != 0, "unusual memory layout")
                .label(!c.cons.is_empty() && !list.is_empty(), "constraints listed"))
        },
    );
    ctx.sub(
        "runs",
        "the set a generated run returns: the objective's values at its points are what the reports state; non-trivial when it has at least two solutions",
        ctx.n(1500, 40000),
        || rich_case(RUN),
        |c: &RunCase| {
            let p = Prob::new(&c.prob);
            let Ok(Ok(set)) = no_panic(|| c.optimizer(&p).run()) else { return Ok(Info::nt(false)) };
            if p.log.ranaway() {
                return Ok(Info::nt(false));
            }
            let list = super::common::set_vec(&set);
            let best = list.iter().map(|l| l.1).fold(None, |m: Option<f64>, v| Some(m.map_or(v, |m| if better_eq(m, v) { m } else { v })));
            agrees("the report", &format!("{set}"), &list, best)?;
            agrees("the report for the problem", &set.display_with_problem(&p), &list, best)?;
            Ok(Info::nt(list.len() >= 2))
        },
    );
    ctx.sub(
        "checkpoints",
        "a generated checkpoint state printed and read back; non-trivial when it has a solution set",
        ctx.n(20000, 500000),
        || ck_spec(40),
        |c: &CkSpec| {
            let k = c.build();
            // a timestamp may contain anything, also text that looks like another line
            let mut k = k;
            k.timestamp = "2026-01-01T00:00:00Z".into();
            checkpoint_report(&k)?;
            Ok(Info::nt(k.solution_set.is_some()))
        },
    );
    ctx.sub(
        "names",
        "solver names in any letter case, names with small edits and arbitrary text; non-trivial when the text is a name in mixed case or one edit away from a name",
        ctx.n(60000, 2000000),
        || {
            prop_oneof![
                3 => (0usize..8, any::<u32>()).prop_map(|(i, m)| NAMES[i].0.chars().enumerate().map(|(j, ch)| if m >> j & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect::<String>()),
                3 => (0usize..8, 0usize..20, 0u8..4, prop::sample::select(vec!["", " ", "-", "_", "a", "s", "g", "\n", "\0", "é", "ſ", "İ", "K"])).prop_map(|(i, at, how, ins)| {
                    let mut v: Vec<String> = NAMES[i].0.chars().map(|c| c.to_string()).collect();
                    let at = at % (v.len() + 1);
                    match how {
                        0 => v.insert(at, ins.into()),
                        1 if at < v.len() => { v.remove(at); }
                        2 if at < v.len() => v[at] = ins.into(),
                        _ => v.truncate(at),
                    }
                    v.concat()
                }),
                1 => "\\PC{0,16}",
                1 => prop::sample::select(vec!["bfgs", "l-bfgs", "lbfgsb", "nm", "steepest-descent", "trust-region", "newton", "ncg", "gradient", "bobyqa", "none", "default"]).prop_map(String::from),
            ]
        },
        |t: &String| {
            let want = NAMES.iter().find(|n| n.0 == t.to_lowercase()).map(|n| n.1.clone());
            let got = LocalSolverType::from_string(t).ok();
            ensure!(got == want, "the name {t:?} is taken for {got:?}, it is {want:?}");
            let near = NAMES.iter().any(|n| (n.0.chars().count() as i64 - t.chars().count() as i64).abs() <= 1);
            Ok(Info::nt(near).label(want.is_some(), "a name"))
        },
    );
}
