//! C05 (Stage 1), C06 (reproducible), C07 (watching), C08 (parallel = sequential = other builds)
use super::common::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::model::*;
use crate::prob::*;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::scatter_search::ScatterSearch;
use ndarray::Array1;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;
use std::sync::atomic::Ordering;

fn many_custom(dim: usize) -> BoxedStrategy<Vec<Vec<f64>>> {
    prop_oneof![
        4 => Just(vec![]),
        4 => prop::collection::vec(prop::collection::vec(frac(), dim), 1..8),
        1 => prop::collection::vec(prop::collection::vec(frac(), dim), 8..60),
        1 => prop::collection::vec(prop::collection::vec(frac(), dim), 100..130),
    ]
    .boxed()
}
/// Cases for Stage 1 alone: wider ranges of population size and custom points.
pub fn stage1_case(p: POpt) -> BoxedStrategy<RunCase> {
    (
        run_case(ROpt { p, max_pop: 60, custom: false, ..RUN }),
        many_custom(p.max_dim),
        prop_oneof![6 => Just(0usize), 1 => Just(120usize), 1 => Just(250usize)],
        many_cons(Just(vec![]).boxed()),
    )
        .prop_map(|(mut c, custom, big, pads)| {
            c.custom = custom;
            if !c.prob.cons.is_empty() {
                // among many others, the ones that matter come last
                c.prob.cons = pads.into_iter().chain(c.prob.cons).collect();
            }
            if big > 0 {
                c.pop = c.pop.max(big);
            }
            c
        })
        .boxed()
}

/// Boxes so wide that squared distances overflow or so narrow that they vanish.
pub fn wild_stage1(p: POpt) -> BoxedStrategy<RunCase> {
    let kinds = prop_oneof![
        10 => Just((0u8, 1.0)),
        1 => Just((1u8, 1e160)),
        1 => Just((1u8, 1e290)),
        1 => Just((1u8, 1e-170)),
        // so far out that the sum of the bounds overflows, on one side or with one variable only
        1 => prop::sample::select(vec![(2u8, 1.0), (2, -1.0), (3, 1.0), (3, -1.0)]),
    ];
    (stage1_case(p), kinds)
        .prop_map(|(mut c, (k, m))| {
            for i in 0..c.prob.dim() {
                if k == 1 {
                    c.prob.lo[i] *= m;
                    c.prob.width[i] *= m;
                }
                if k == 2 || (k == 3 && i == 0) {
                    c.prob.width[i] = 4e307 * (1.0 + (i % 5) as f64 / 10.0);
                    c.prob.lo[i] = if m > 0.0 { 1.1e308 } else { -1.1e308 - c.prob.width[i] };
                }
            }
            c
        })
        .boxed()
}
/// The middle of the box; the sum of the bounds may overflow.
fn midpoint(s: &crate::prob::ProbSpec) -> Vec<f64> {
    let mid = |a: f64, b: f64| if (a + b).is_finite() { (a + b) / 2.0 } else { a / 2.0 + b / 2.0 };
    (0..s.dim()).map(|i| mid(s.lo[i], s.hi(i))).collect()
}

fn contains(v: &Pts, x: &[f64]) -> bool {
    v.iter().any(|(y, _)| same_vec(x, y))
}

pub fn c05(ctx: &Ctx) {
    ctx.sub(
        "set",
        "Stage 1 of a generated problem; non-trivial when a combination candidate entered the reference set or custom points were given",
        ctx.n(16000, 600000),
        || (
            prop_oneof![4 => wild_stage1(POpt { max_dim: 6, odd_scales: true, ..PLAIN }), 2 => stage1_case(POpt { cons: true, ..PLAIN })],
            // values of any magnitude
            prop_oneof![6 => Just(1.0), 1 => Just(1e9), 1 => Just(1e-12), 1 => Just(1e100), 1 => Just(1e-200)],
        )
            .prop_map(|(mut c, m)| {
                c.prob.scale *= m;
                c.prob.tilt *= m;
                c.prob.offset *= m;
                c
            }),
        |c: &RunCase| {
            let p = Prob::new(&c.prob);
            let Some((set, best)) = stage1(c, &p) else { return Ok(Info::nt(false).label(true, "error")) };
            let log = p.log.points();
            let s = &c.prob;
            let mut seeds: Vec<Vec<f64>> = vec![];
            let d = s.dim();
            seeds.push((0..d).map(|i| s.lo[i]).collect());
            seeds.push((0..d).map(|i| s.hi(i)).collect());
            seeds.push(midpoint(s));
            let custom: Vec<Vec<f64>> =
                c.custom_points().map(|a| a.outer_iter().map(|r| r.to_vec()).collect()).unwrap_or_default();
            let fixed: Vec<&Vec<f64>> = seeds.iter().chain(&custom).filter(|x| s.feasible(x)).collect();
            ensure!(
                set.len() == c.pop,
                "the reference set has {} points, population size {}, {} seed and custom points",
                set.len(),
                c.pop,
                fixed.len()
            );
            for (x, f) in &log {
                ensure!(s.inside(x), "Stage 1 evaluates {x:?} ({f:?}) outside the bounds");
                ensure!(s.feasible(x), "Stage 1 evaluates the infeasible point {x:?}");
            }
            for (x, f) in &set {
                ensure!(s.inside(x), "reference point {x:?} lies outside the bounds");
                ensure!(s.feasible(x), "reference point {x:?} is infeasible");
                ensure!(same(s.value(x), *f), "reference point {x:?} is paired with {f:?}, its objective is {:?}", s.value(x));
                ensure!(contains(&log, x), "reference point {x:?} was never evaluated");
            }
            for x in &fixed {
                ensure!(contains(&log, x), "the seed or custom point {x:?} was never evaluated");
            }
            // each reference point is a separately evaluated one
            let mut have: Vec<f64> = set.iter().map(|x| x.1).collect();
            let mut all: Vec<f64> = log.iter().map(|x| x.1).collect();
            // what is not a number comes after every number
            let order = |a: &f64, b: &f64| a.is_nan().cmp(&b.is_nan()).then(a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
            have.sort_by(order);
            all.sort_by(order);
            for (i, (a, b)) in have.iter().zip(&all).enumerate() {
                ensure!(order(a, b).is_eq(), "the {i}th best reference value is {a:?} but Stage 1 evaluated a point with {b:?}");
            }
            let worst = *have.last().unwrap();
            for x in &fixed {
                let f = s.value(x);
                ensure!(!order(&f, &worst).is_lt() || contains(&set, x), "the seed or custom point {x:?} with {f:?} was dropped, the worst kept is {worst:?}");
            }
            let at = set.iter().find(|(x, _)| same_vec(x, &best));
            ensure!(at.is_some_and(|(_, f)| order(f, &have[0]).is_eq()), "the start of the first local search is {best:?} with {:?}, the best reference value is {:?}", s.value(&best), have[0]);
            let accepted = set.len() == c.pop && log.len() > set.len() && {
                // a point evaluated after the initial ones is in the set
                let init = c.pop.max(fixed.len());
                !c.parallel && log[init.min(log.len())..].iter().any(|(x, _)| contains(&set, x))
            };
            Ok(Info::nt(accepted || !custom.is_empty())
                .label(accepted, "combination accepted")
                .label(fixed.len() > c.pop, "more custom points than population")
                .label(!s.cons.is_empty(), "constrained")
                .label(fixed.len() < seeds.len() + custom.len(), "infeasible seed or custom point")
                .label(custom.len() >= 100, "100+ custom points"))
        },
    );
    ctx.sub(
        "diversify",
        "diversification of a generated starting set; non-trivial when at least three points are added",
        ctx.n(6000, 200000),
        || wild_stage1(POpt { max_dim: 6, odd_scales: true, ..PLAIN }),
        |c: &RunCase| {
            let p = Prob::new(&c.prob);
            let mk = || ScatterSearch::new(p.clone(), c.params()).map(|s| s.parallel(c.parallel)).map_err(|e| e.to_string());
            let mut pool: Vec<Array1<f64>> = mk()?.generate_stratified_samples(c.pop).map_err(|e| e.to_string())?;
            ensure!(pool.len() == c.pop, "{} samples instead of {}", pool.len(), c.pop);
            for x in &pool {
                ensure!(c.prob.inside(&x.to_vec()), "sample {x:?} outside the bounds");
            }
            let start: Vec<Array1<f64>> =
                c.custom_points().map(|a| a.outer_iter().map(|r| r.to_owned()).collect()).unwrap_or_default();
            let mut set = start.clone();
            mk()?.diversify_reference_set(&mut set, &[]).map_err(|e| e.to_string())?;
            ensure!(set.len() == c.pop.max(start.len()), "{} points after diversification, population size {}", set.len(), c.pop);
            let n0 = start.len();
            let mut mind: Vec<f64> = pool
                .iter()
                .map(|x| start.iter().map(|y| dist2(&x.to_vec(), &y.to_vec())).fold(f64::INFINITY, f64::min))
                .collect();
            for i in 0..set.len() {
                if i < n0 {
                    ensure!(set[i] == start[i], "diversification moved the given point {i}");
                    continue;
                }
                let Some(k) = pool.iter().position(|x| *x == set[i]) else {
                    return Err(format!("point {i} is not one of the samples"));
                };
                let far = mind.iter().cloned().fold(0.0, f64::max);
                ensure!(
                    mind[k] >= far * (1.0 - 1e-9),
                    "point {i} is {:?} (squared) from the points chosen before, another sample is {far:?}",
                    mind[k]
                );
                pool.swap_remove(k);
                mind.swap_remove(k);
                for (j, x) in pool.iter().enumerate() {
                    mind[j] = mind[j].min(dist2(&x.to_vec(), &set[i].to_vec()));
                }
            }
            Ok(Info::nt(set.len() >= n0 + 3))
        },
    );
    ctx.sub(
        "run",
        "the sequence of Stage 1 evaluations starts with the seeds, the custom points and a farthest-point choice of samples; non-trivial when three samples are chosen",
        ctx.n(1500, 60000),
        || stage1_case(POpt { max_dim: 5, ..PLAIN }),
        |c: &RunCase| {
            let mut c = c.clone();
            c.parallel = false;
            let p = Prob::new(&c.prob);
            let Some(_) = stage1(&c, &p) else { return Err("Stage 1 fails without constraints".into()) };
            let log = p.log.points();
            let n0 = 3 + c.custom.len();
            let n = c.pop.max(n0);
            ensure!(log.len() >= n, "only {} evaluations for {n} initial points", log.len());
            // order of evaluation is free: sort out the given points first
            let mut init: Pts = log[..n].to_vec();
            let s = &c.prob;
            let mut given: Vec<Vec<f64>> = vec![
                s.lo.clone(),
                (0..s.dim()).map(|i| s.hi(i)).collect(),
                midpoint(s),
            ];
            given.extend(c.custom_points().map(|a| a.outer_iter().map(|r| r.to_vec()).collect::<Vec<_>>()).unwrap_or_default());
            for g in &given {
                let Some(k) = init.iter().position(|x| same_vec(&x.0, g)) else {
                    return Err(format!("the seed or custom point {g:?} is not among the initial points"));
                };
                init.remove(k);
            }
            let pool = ScatterSearch::new(p.clone(), c.params()).map_err(|e| e.to_string())?.parallel(false)
                .generate_stratified_samples(c.pop).map_err(|e| e.to_string())?;
            let mut pool: Vec<Vec<f64>> = pool.iter().map(|x| x.to_vec()).collect();
            let mut chosen = given.clone();
            let mut left: Vec<Vec<f64>> = init.iter().map(|x| x.0.clone()).collect();
            let k = left.len();
            // a greedy farthest-point choice ends with exactly these points
            while !left.is_empty() {
                let md = |x: &Vec<f64>| chosen.iter().map(|y| dist2(x, y)).fold(f64::INFINITY, f64::min);
                let far = pool.iter().map(md).fold(0.0, f64::max);
                let Some(i) = left.iter().position(|x| md(x) >= far * (1.0 - 1e-9)) else {
                    return Err("the initial points are not a farthest-point choice of the samples".into());
                };
                let x = left.remove(i);
                let Some(j) = pool.iter().position(|y| same_vec(y, &x)) else {
                    return Err(format!("the initial point {x:?} is not one of the samples"));
                };
                pool.swap_remove(j);
                chosen.push(x);
            }
            Ok(Info::nt(k >= 3))
        },
    );
}

// ---- C06 -----------------------------------------------------------------------------------------
pub fn pools() -> &'static Vec<rayon::ThreadPool> {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    P.get_or_init(|| [1usize, 2, 3, 7].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())
}
pub struct Outcome {
    pub set: Result<Pts, String>,
    pub log: Pts,
    pub ranaway: bool,
}
pub fn outcome(c: &RunCase, jitter: u64) -> Outcome {
    let p = Prob::new(&c.prob);
    p.log.jitter.store(jitter, Ordering::SeqCst);
    let r = c.optimizer(&p).run();
    Outcome { set: r.map(|s| set_vec(&s)).map_err(|e| e.to_string()), log: p.log.points(), ranaway: p.log.ranaway() }
}
/// sorted, so that the order of evaluation does not matter
pub fn sorted(p: &Pts) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = p.iter().map(|(x, _)| x.iter().map(|v| v.to_bits()).collect()).collect();
    v.sort();
    v
}
pub fn same_bits(a: &Pts, b: &Pts) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            (x.1.to_bits() == y.1.to_bits() || (x.1.is_nan() && y.1.is_nan()))
                && x.0.len() == y.0.len()
                && x.0.iter().zip(&y.0).all(|(u, v)| u.to_bits() == v.to_bits())
        })
}
pub fn compare(what: &str, a: &Outcome, b: &Outcome, ordered: bool) -> Result<(), String> {
    if a.ranaway || b.ranaway {
        return Ok(());
    }
    match (&a.set, &b.set) {
        (Ok(x), Ok(y)) => ensure!(same_bits(x, y), "{what}: returned {} and {}", show(x), show(y)),
        // in parallel, which of several failures is reported depends on the schedule
        (Err(x), Err(y)) => ensure!(!ordered || x == y, "{what}: fails with {x:?} and {y:?}"),
        (x, y) => return Err(format!("{what}: {:?} and {:?}", x.as_ref().map(show), y.as_ref().map(show))),
    }
    if ordered {
        ensure!(same_bits(&a.log, &b.log), "{what}: the sequences of evaluated points differ ({} and {} points)", a.log.len(), b.log.len());
    } else if a.set.is_ok() {
        ensure!(sorted(&a.log) == sorted(&b.log), "{what}: the sets of evaluated points differ ({} and {} points)", a.log.len(), b.log.len());
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ReproCase {
    run: RunCase,
    pools: (usize, usize),
    jitter: u32,
    /// another run in between
    other: RunCase,
}

pub fn c06(ctx: &Ctx) {
    let o = ROpt { auto_batch: true, target: true, p: POpt { odd_scales: true, ..PLAIN }, ..RUN };
    ctx.sub(
        "repeat",
        "the same run repeated in different thread pools, after another run and with disturbed scheduling; non-trivial when Stage 2 or the parallel Stage 1 did more than the first local search",
        ctx.n(14000, 300000),
        || {
            let any_case = || prop_oneof![3 => run_case(o), 3 => rich_case(o), 1 => run_case(ROpt { p: POpt { cons: true, ..PLAIN }, ..o }), 1 => stage1_case(PLAIN)];
            (any_case(), (0usize..4, 0usize..4), prop_oneof![3 => Just(0u32), 1 => 1u32..1000], run_case(o))
                .prop_map(|(run, pools, jitter, other)| ReproCase { run, pools, jitter, other })
                .boxed()
        },
        |c: &ReproCase| {
            let a = pools()[c.pools.0].install(|| outcome(&c.run, 0));
            let _ = outcome(&c.other, 0);
            // the automatic batch size is documented to depend on the number of threads
            let auto = c.run.parallel && c.run.batch.is_none();
            let second = if auto { c.pools.0 } else { c.pools.1 };
            let b = pools()[second].install(|| outcome(&c.run, c.jitter as u64));
            compare("same run twice", &a, &b, !c.run.parallel)?;
            if c.jitter == 0 && !auto {
                // outside of any of our pools: the global one
                let g = outcome(&c.run, 0);
                compare("same run in the global thread pool", &a, &g, !c.run.parallel)?;
            }
            Ok(Info::nt(a.set.is_ok() && a.log.len() > c.run.pop + 20)
                .label(c.run.parallel, "parallel")
                .label(c.run.pop >= 20 && c.run.parallel, "parallel stage 1")
                .label(c.jitter > 0, "disturbed")
                .label(c.pools.0 != second, "different thread counts"))
        },
    );
    ctx.sub(
        "again",
        "a fresh optimizer of the same configuration on a shared problem, run concurrently from several threads; non-trivial when solutions are found",
        ctx.n(1500, 30000),
        || rich_case(o),
        |c: &RunCase| {
            let a = pools()[1].install(|| outcome(c, 0));
            let auto = c.parallel && c.batch.is_none();
            let rs: Vec<Outcome> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..3)
                    .map(|i| s.spawn(move || pools()[if auto { 1 } else { i }].install(|| outcome(c, 0))))
                    .collect();
                hs.into_iter().map(|h| h.join().expect("thread")).collect()
            });
            for b in &rs {
                compare("concurrent runs", &a, b, !c.parallel)?;
            }
            Ok(Info::nt(a.set.is_ok_and(|s| !s.is_empty())))
        },
    );
    ctx.sub(
        "seeds",
        "two different seeds; non-trivial always",
        ctx.n(6000, 100000),
        || (run_case(ROpt { custom: false, p: PLAIN, ..o }), any::<u64>()).boxed(),
        |(c, s2): &(RunCase, u64)| {
            if *s2 == c.seed {
                return Ok(Info::nt(false));
            }
            let sample = |seed: u64| {
                let mut c = c.clone();
                c.seed = seed;
                let p = Prob::new(&c.prob);
                let pts = ScatterSearch::new(p, c.params()).unwrap().parallel(c.parallel).generate_stratified_samples(c.pop).unwrap();
                pts
            };
            for other in [*s2, c.seed.wrapping_add(1), c.seed ^ (1 << 40)] {
                if other == c.seed {
                    continue;
                }
                let (a, b) = (sample(c.seed), sample(other));
                ensure!(a != b, "seeds {} and {other} sample the same points", c.seed);
                ensure!(a.iter().all(|x| !b.contains(x)), "seeds {} and {other} share a sampled point", c.seed);
            }
            // and the points of one sample are different from each other
            let a = sample(c.seed);
            for i in 0..a.len() {
                ensure!(!a[..i].contains(&a[i]), "the same point is sampled twice");
            }
            Ok(Info::nt(true))
        },
    );
}

// ---- C07 -----------------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Watch {
    pub mode: u8,
    pub stage1: bool,
    pub stage2: bool,
    pub timing: bool,
    pub freq: usize,
    pub unique: bool,
    /// 0 none, 1 own, 2 default, 3 stage 1, 4 stage 2
    pub callback: u8,
    pub verbose: bool,
    pub ck: Option<(usize, bool)>,
}
pub fn observer_of(w: &Watch) -> Observer {
    let mut o = Observer::new().with_mode(match w.mode {
        0 => ObserverMode::Stage1Only,
        1 => ObserverMode::Stage2Only,
        _ => ObserverMode::Both,
    });
    if w.stage1 {
        o = o.with_stage1_tracking();
    }
    if w.stage2 {
        o = o.with_stage2_tracking();
    }
    if w.timing {
        o = o.with_timing();
    }
    if w.unique {
        o = o.unique_updates();
    }
    o = o.with_callback_frequency(w.freq);
    o
}
fn watch() -> BoxedStrategy<Watch> {
    (
        (0u8..3, any::<bool>(), any::<bool>(), any::<bool>()),
        prop_oneof![2 => Just(1usize), 2 => 2usize..9, 1 => Just(0usize), 1 => Just(1000usize), 1 => Just(usize::MAX)],
        any::<bool>(),
        0u8..5,
        any::<bool>(),
        prop_oneof![2 => Just(None), 3 => (1usize..7, any::<bool>()).prop_map(Some), 1 => Just(Some((0, true))), 1 => Just(Some((100, false)))],
    )
        .prop_map(|((mode, stage1, stage2, timing), freq, unique, callback, verbose, ck)| Watch {
            mode,
            stage1,
            stage2,
            timing,
            freq,
            unique,
            callback,
            verbose,
            ck,
        })
        .boxed()
}

pub fn c07(ctx: &Ctx) {
    let o = ROpt { target: true, auto_batch: true, ..RUN };
    ctx.sub(
        "watched",
        "a run without and with a generated combination of observer, callback, timing, verbose and checkpoint saving; non-trivial when Stage 2 launched a local search or an observer was attached",
        ctx.n(20000, 500000),
        || (prop_oneof![2 => run_case(o), 3 => rich_case(o), 1 => run_case(ROpt { p: POpt { cons: true, ..PLAIN }, ..o }), 1 => stage1_case(PLAIN)], watch()).boxed(),
        |(c, w): &(RunCase, Watch)| {
            let a = outcome(c, 0);
            let p = Prob::new(&c.prob);
            let mut opt = c.optimizer(&p);
            let dir = ctx.tmp();
            if w.callback > 0 || w.stage1 || w.stage2 {
                let ob = observer_of(w);
                opt = opt.add_observer(match w.callback {
                    0 => ob,
                    1 => ob.with_callback(|o| {
                        let _ = (o.stage1().map(|s| s.best_objective()), o.stage2().map(|s| s.best_objective()), o.elapsed_time());
                    }),
                    2 => ob.with_default_callback(),
                    3 => ob.with_stage1_callback(),
                    _ => ob.with_stage2_callback(),
                });
            }
            if w.verbose {
                opt = opt.verbose();
            }
            if let Some((f, keep)) = w.ck {
                opt = opt.with_checkpointing(ckcfg(&dir.0, f, keep, false)).map_err(|e| e.to_string())?;
            }
            let r = opt.run();
            let b = Outcome { set: r.map(|s| set_vec(&s)).map_err(|e| e.to_string()), log: p.log.points(), ranaway: p.log.ranaway() };
            compare(&format!("unwatched and watched run ({w:?})"), &a, &b, !c.parallel)?;
            Ok(Info::nt(a.log.len() > c.pop + 30 && (w.stage1 || w.stage2 || w.callback > 0 || w.verbose || w.ck.is_some()))
                .label(w.ck.is_some(), "checkpoints")
                .label(w.verbose, "verbose")
                .label(w.callback > 0, "callback"))
        },
    );
}
