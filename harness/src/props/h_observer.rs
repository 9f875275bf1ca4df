//! C18 (observer metrics), C19 (callback schedule and visibility)
use super::common::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::model::*;
use crate::prob::*;
use globalsearch::observers::{Observer, ObserverMode, Stage1State, Stage2State};
use globalsearch::scatter_search::ScatterSearch;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Snap {
    pub s1: Option<Stage1State>,
    pub s2: Option<Stage2State>,
    s1_final: bool,
    /// Stage 2's time so far, read inside the callback
    t2: Option<f64>,
    obj: u64,
    elapsed: Option<f64>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ObsCase {
    pub run: RunCase,
    mode: u8,
    s1: bool,
    s2: bool,
    timing: bool,
    pub freq: usize,
    /// resume from this checkpoint of a first run (counted round the history)
    pub resume: Option<u16>,
}
impl ObsCase {
    pub fn observer(&self) -> Observer {
        let mut o = Observer::new().with_mode(match self.mode {
            0 => ObserverMode::Stage1Only,
            1 => ObserverMode::Stage2Only,
            _ => ObserverMode::Both,
        });
        if self.s1 {
            o = o.with_stage1_tracking();
        }
        if self.s2 {
            o = o.with_stage2_tracking();
        }
        if self.timing {
            o = o.with_timing();
        }
        o
    }
    pub fn sees1(&self) -> bool {
        self.s1 && self.mode != 1
    }
    pub fn sees2(&self) -> bool {
        self.s2 && self.mode != 0
    }
}
pub fn obs_case(base: BoxedStrategy<RunCase>, full: bool) -> BoxedStrategy<ObsCase> {
    let on = move || if full { prop_oneof![6 => Just(true), 1 => Just(false)].boxed() } else { any::<bool>().boxed() };
    (
        base,
        if full { prop_oneof![1 => 0u8..3, 6 => Just(2u8)].boxed() } else { (0u8..3).boxed() },
        on(),
        on(),
        any::<bool>(),
        if full {
            prop_oneof![5 => Just(1usize), 2 => 2usize..6].boxed()
        } else {
            prop_oneof![2 => Just(1usize), 4 => 2usize..9, 1 => Just(0usize), 1 => Just(1000usize), 1 => Just(usize::MAX)].boxed()
        },
        prop_oneof![3 => Just(None), 1 => any::<u16>().prop_map(Some)],
        prop_oneof![
            6 => Just(None),
            1 => (0u8..3, 1u32..=60, any::<bool>()).prop_map(|(what, cut, below)| Some(Hole { what, cut: cut as f64 / 100.0, below, w: 0.0 })),
        ],
    )
        .prop_map(|(mut run, mode, s1, s2, timing, freq, resume, hole)| {
            run.prob.hole = hole;
            if hole.is_some() {
                // the gradient-based solvers misbehave on such functions
                run.solver = Solver::NelderMead { max_iter: 10, delta: 0.1, sd: 1e-6, alpha: 1.0, gamma: 2.0, rho: 0.5, sigma: 0.5 };
                if !run.prob.cons.is_empty() {
                    run.prob.hole = None;
                }
            }
            ObsCase { run, mode, s1, s2, timing, freq, resume }
        })
        .boxed()
}

/// What the run should have done after each Stage 2 trial.
pub struct Event {
    pub iter: usize,
    pub st: St,
    calls: usize,
    improved: usize,
    evals: u64,
    pub launched: bool,
}
pub struct Account {
    /// evaluations made before Stage 2
    before: u64,
    s1: Option<(Pts, (Vec<f64>, f64), usize)>,
    pub events: Vec<Event>,
    pub first: St,
    pub last: St,
    calls: usize,
    improved: usize,
    evals: u64,
    pub ok: bool,
}
pub struct Seen {
    pub snaps: Vec<Snap>,
    ob: Option<Observer>,
    pub result: Option<Pts>,
    p: Prob,
    wall: f64,
}

fn watched(c: &ObsCase, ctx: &Ctx, from: Option<&std::path::Path>, delay: Option<(u64, u64)>) -> Result<Seen, String> {
    let p = Prob::new(&c.run.prob);
    if let Some((at, us)) = delay {
        p.log.delay_us.store(us, Ordering::SeqCst);
        p.log.delay_at.store(at + 1, Ordering::SeqCst);
    }
    let snaps: Arc<Mutex<Vec<Snap>>> = Arc::default();
    let (sn, log) = (snaps.clone(), p.log.clone());
    let early = c.run.seed % 3 == 1;
    let mut o = c.observer();
    if early {
        o = o.with_callback_frequency(c.freq);
    }
    o = o
        .with_callback(move |o| {
            sn.lock().unwrap().push(Snap {
                s1: o.stage1().cloned(),
                s2: o.stage2().cloned(),
                s1_final: o.stage1_final().is_some(),
                t2: o.stage2().and_then(|s| s.total_time()),
                obj: log.obj(),
                elapsed: o.elapsed_time(),
            })
        });
    if !early {
        o = o.with_callback_frequency(c.freq);
    }
    if c.run.seed % 2 == 1 {
        // a copy observes as the original does
        o = o.clone();
    }
    let dir = ctx.tmp();
    let mut opt = c.run.optimizer(&p).add_observer(o);
    if let Some(f) = from {
        std::fs::copy(f, dir.0.join("s_000001.bin")).map_err(|e| e.to_string())?;
        opt = opt.with_checkpointing(ckcfg(&dir.0, 1000, true, true)).map_err(|e| e.to_string())?;
    }
    let t = std::time::Instant::now();
    let r = opt.run();
    let wall = t.elapsed().as_secs_f64();
    let ob = opt.observer().cloned();
    let snaps = snaps.lock().unwrap().clone();
    Ok(Seen { snaps, ob, result: r.ok().map(|s| set_vec(&s)), p, wall })
}

/// Run the case with its observer and compute what should have been seen. None: nothing to compare.
pub fn both(c: &ObsCase, ctx: &Ctx) -> Result<Option<(Seen, Account)>, String> {
    // the trial order comes from a checkpoint of the same run without observer
    let dir = ctx.tmp();
    let p0 = Prob::new(&c.run.prob);
    let r0 = c.run.optimizer(&p0).with_checkpointing(ckcfg(&dir.0, 1, true, false)).map_err(|e| e.to_string())?.run();
    let cks = read_all(&dir.0)?;
    if p0.log.ranaway() {
        return Ok(None);
    }
    let rules = match (&c.resume, cks.is_empty()) {
        (Some(_), false) => Rules::of_checkpoint(&cks[0].1),
        _ => Rules::of(&c.run),
    };
    let m = Model::new(rules, &c.run.prob);
    let resumed = c.resume.filter(|_| !cks.is_empty() && r0.is_ok()).map(|k| k as usize % cks.len());
    let mut acc;
    let mut st;
    let seen;
    let eager = resumed.is_some();
    if let Some(k) = resumed {
        let file = dir.0.join(format!("s_{:06}.bin", cks[k].0));
        seen = watched(c, ctx, Some(&file), None)?;
        st = state_of(&cks[k].1);
        acc = Account { before: 0, s1: None, events: vec![], first: st.clone(), last: st.clone(), calls: 0, improved: 0, evals: 0, ok: true };
    } else {
        seen = watched(c, ctx, None, None)?;
        let p1 = Prob::new(&c.run.prob);
        let Some((set, cand)) = stage1(&c.run, &p1) else {
            ensure!(seen.result.is_none(), "Stage 1 fails on its own but the run succeeds");
            return Ok(None);
        };
        let Some(s) = m.start(&cand) else { return Ok(None) };
        let trial_points = {
            let mut ss = ScatterSearch::new(Prob::new(&c.run.prob), c.run.params()).map_err(|e| e.to_string())?.parallel(c.run.parallel);
            if let Some(cp) = c.run.custom_points() {
                ss = ss.with_custom_points(cp.outer_iter().map(|r| r.to_owned()).collect());
            }
            ss.initialize_reference_set().map_err(|e| e.to_string())?;
            ss.generate_trial_points().map_err(|e| e.to_string())?.len()
        };
        let before = p1.log.obj() + m.prob.log.obj();
        acc = Account {
            before,
            s1: Some((set, s.found[0].clone(), trial_points)),
            events: vec![],
            first: s.clone(),
            last: s.clone(),
            calls: 0,
            improved: 0,
            evals: 0,
            ok: true,
        };
        st = s;
        if st.stopped || cks.is_empty() {
            acc.ok = st.stopped;
            return Ok((!seen.p.log.ranaway()).then_some((seen, acc)));
        }
    }
    let order = order_of(&c.run.prob, &cks[0].1);
    let end = m.rules.params.iterations.min(order.len());
    st.stopped = eager && m.rules.reached(&st.set);
    while st.done < end && !st.stopped {
        let to = (st.done + m.rules.batch).min(end);
        let from = st.done;
        let extra = if eager { (to - from) as u64 } else { 0 };
        acc.evals += extra;
        let ok = m.batch_with(&mut st, &order[from..to], |s, step| {
            acc.calls += usize::from(step.launched);
            acc.improved += usize::from(step.improved);
            acc.evals += step.evals;
            acc.events.push(Event { iter: step.iter, st: s.clone(), calls: acc.calls, improved: acc.improved, evals: acc.evals, launched: step.launched });
        });
        if ok.is_none() {
            acc.ok = false;
            break;
        }
    }
    acc.last = st;
    if seen.p.log.ranaway() || m.prob.log.ranaway() {
        return Ok(None);
    }
    Ok(Some((seen, acc)))
}

fn best_of(set: &Pts) -> f64 {
    set.iter().map(|s| s.1).fold(f64::NAN, |a, b| if a.is_nan() || b < a { b } else { a })
}
fn check_s2(what: &str, s: &Stage2State, st: &St, calls: usize, improved: usize, spec: &ProbSpec) -> Result<(), String> {
    ensure!(s.local_solver_calls() == calls, "{what}: {} local searches reported, {calls} were made", s.local_solver_calls());
    ensure!(s.improved_local_calls() == improved, "{what}: {} improving local searches reported, {improved} were", s.improved_local_calls());
    ensure!(s.solution_set_size() == st.set.len(), "{what}: solution set size {} reported, it is {}", s.solution_set_size(), st.set.len());
    let best = best_of(&st.set);
    ensure!(same(s.best_objective(), best), "{what}: best objective {:?} reported, it is {best:?}", s.best_objective());
    match s.best_point() {
        None => ensure!(best.is_nan(), "{what}: no best point reported"),
        Some(x) => {
            let x = x.to_vec();
            ensure!(st.set.iter().any(|y| same_vec(&x, &y.0) && same(y.1, best)), "{what}: best point {x:?} is not where {best:?} was found");
            let _ = spec;
        }
    }
    // the model appends to the set, so its last member is the latest one
    match (s.last_added_point().map(|x| x.to_vec()), st.set.last()) {
        (Some(x), Some(y)) => ensure!(same_vec(&x, &y.0), "{what}: last added point {x:?} reported, the last solution added is {:?}", y.0),
        (Some(x), None) => return Err(format!("{what}: last added point {x:?} reported, but there is none")),
        (None, _) => ensure!(improved == 0, "{what}: no last added point reported, {improved} searches added one"),
    }
    ensure!(same(s.threshold_value(), st.threshold), "{what}: threshold {:?} reported, it is {:?}", s.threshold_value(), st.threshold);
    ensure!(s.unchanged_cycles() == st.cycles, "{what}: {} unchanged cycles reported, there are {}", s.unchanged_cycles(), st.cycles);
    Ok(())
}
fn untouched2(s: &Stage2State) -> bool {
    s.local_solver_calls() == 0
        && s.improved_local_calls() == 0
        && s.function_evaluations() == 0
        && s.solution_set_size() == 0
        && s.current_iteration() == 0
        && s.unchanged_cycles() == 0
        && s.best_objective().is_nan()
        && s.best_point().is_none()
        && s.total_time().is_none()
}
fn untouched1(s: &Stage1State) -> bool {
    s.function_evaluations() == 0 && s.reference_set_size() == 0 && s.trial_points_generated() == 0 && s.best_objective().is_nan() && s.best_point().is_none() && s.total_time().is_none()
}

fn metrics(c: &ObsCase, ctx: &Ctx) -> CheckResult {
    let Some((seen, acc)) = both(c, ctx)? else { return Ok(Info::nt(false)) };
    let spec = &c.run.prob;
    // ---- Stage 1
    if c.sees1() {
        if let Some((set, local, trial_points)) = &acc.s1 {
            let rb = best_of(set);
            let total = if rb.is_nan() || local.1 < rb { local.1 } else { rb };
            let mut prev: Option<Stage1State> = None;
            for s in seen.snaps.iter() {
                let Some(s1) = &s.s1 else { continue };
                let at = format!("Stage 1 callback '{}'", s1.current_substage());
                if let Some(p) = &prev {
                    ensure!(
                        s1.function_evaluations() >= p.function_evaluations() && s1.trial_points_generated() >= p.trial_points_generated(),
                        "{at}: a counter decreased"
                    );
                    ensure!(p.best_objective().is_nan() || s1.best_objective() <= p.best_objective(), "{at}: the best objective got worse");
                }
                let phase = ["diversification_complete", "intensification_complete", "scatter_search_complete", "local_optimization_complete", "stage1_complete"]
                    .iter()
                    .position(|x| *x == s1.current_substage());
                if let Some(ph) = phase {
                    ensure!(s1.function_evaluations() as u64 == s.obj, "{at}: {} function evaluations reported, {} were made", s1.function_evaluations(), s.obj);
                    if ph >= 1 {
                        ensure!(s1.trial_points_generated() == *trial_points, "{at}: {} trial points reported, {trial_points} generated", s1.trial_points_generated());
                        ensure!(s1.reference_set_size() == set.len(), "{at}: reference set size {} reported, it is {}", s1.reference_set_size(), set.len());
                    }
                    if ph == 2 {
                        ensure!(same(s1.best_objective(), rb), "{at}: best objective {:?} reported, it is {rb:?}", s1.best_objective());
                        if let Some(x) = s1.best_point() {
                            ensure!(set.iter().any(|y| same_vec(&x.to_vec(), &y.0) && same(y.1, rb)), "{at}: best point {x} does not have the best objective");
                        } else {
                            return Err(format!("{at}: no best point"));
                        }
                    }
                    if ph >= 3 {
                        ensure!(same(s1.best_objective(), total), "{at}: best objective {:?} reported, it is {total:?}", s1.best_objective());
                        let x = s1.best_point().ok_or("no best point")?.to_vec();
                        ensure!(
                            (same(local.1, total) && same_vec(&x, &local.0)) || set.iter().any(|y| same_vec(&x, &y.0) && same(y.1, total)),
                            "{at}: best point {x:?} does not have the best objective {total:?}"
                        );
                    }
                }
                prev = Some(s1.clone());
            }
            let fin = seen.ob.as_ref().and_then(|o| o.stage1_final()).ok_or("no final Stage 1 state")?;
            ensure!(fin.function_evaluations() as u64 == acc.before, "at the end: {} Stage 1 evaluations reported, {} were made", fin.function_evaluations(), acc.before);
            ensure!(same(fin.best_objective(), total), "at the end: Stage 1 best {:?} reported, it is {total:?}", fin.best_objective());
            ensure!(fin.reference_set_size() == set.len(), "at the end: reference set size {}, it is {}", fin.reference_set_size(), set.len());
        }
    }
    // ---- Stage 2
    let mut launched = false;
    let mut partial = false;
    if c.sees2() {
        let ev: HashMap<usize, &Event> = acc.events.iter().map(|e| (e.iter, e)).collect();
        let mut prev: Option<Stage2State> = None;
        for s in &seen.snaps {
            let Some(s2) = &s.s2 else { continue };
            let at = format!("Stage 2 callback at iteration {}", s2.current_iteration());
            let Some(e) = ev.get(&s2.current_iteration()) else {
                if acc.ok {
                    return Err(format!("{at}: no such trial was processed"));
                }
                continue;
            };
            check_s2(&at, s2, &e.st, e.calls, e.improved, spec)?;
            launched |= e.launched;
            ensure!(s2.function_evaluations() as u64 == e.evals, "{at}: {} function evaluations reported, {} were made", s2.function_evaluations(), e.evals);
            ensure!(e.evals <= s.obj - acc.before, "harness: inconsistent count");
            if c.run.batch_size() <= 1 {
                ensure!(s2.function_evaluations() as u64 == s.obj - acc.before, "{at}: {} function evaluations reported, the objective was called {} times in Stage 2", s2.function_evaluations(), s.obj - acc.before);
            }
            if let Some(p) = &prev {
                ensure!(
                    s2.function_evaluations() >= p.function_evaluations()
                        && s2.local_solver_calls() >= p.local_solver_calls()
                        && s2.improved_local_calls() >= p.improved_local_calls(),
                    "{at}: a counter decreased"
                );
            }
            prev = Some(s2.clone());
        }
        let entered = c.resume.is_some() && acc.s1.is_none() || !acc.first.stopped;
        if acc.ok && seen.result.is_some() && entered {
            let o = seen.ob.as_ref().ok_or("no observer")?;
            let s2 = o.stage2().ok_or("no Stage 2 state after the run")?;
            check_s2("at the end of the run", s2, &acc.last, acc.calls, acc.improved, spec)?;
            partial = acc.last.stopped && c.run.batch_size() > 1;
            let made = seen.p.log.obj() - acc.before;
            ensure!(
                s2.function_evaluations() as u64 == made || (partial && (s2.function_evaluations() as u64) <= made && s2.function_evaluations() as u64 >= acc.evals),
                "at the end of the run: {} function evaluations reported, {made} were made",
                s2.function_evaluations()
            );
            if let Some(r) = &seen.result {
                ensure!(s2.solution_set_size() == r.len(), "at the end of the run: {} solutions reported, {} returned", s2.solution_set_size(), r.len());
                ensure!(same(s2.best_objective(), best_of(r)), "at the end of the run: best {:?} reported, {:?} returned", s2.best_objective(), best_of(r));
            }
            if !acc.events.is_empty() {
                ensure!(s2.current_iteration() + 1 == acc.last.done, "at the end of the run: iteration {} reported, {} trials were processed", s2.current_iteration(), acc.last.done);
            }
        }
    }
    Ok(Info::nt((c.sees1() && acc.s1.is_some()) || launched)
        .label(launched, "launch seen")
        .label(acc.improved > 0, "improving search")
        .label(c.run.batch_size() > 1 && launched, "batched")
        .label(acc.s1.is_none(), "resumed")
        .label(partial, "target in a batch")
        .label(acc.last.stopped, "target")
        .label(c.run.prob.hole.is_some(), "hole"))
}

pub fn c18(ctx: &Ctx) {
    let o = ROpt { target: true, max_pop: 30, ..RUN };
    ctx.assume("the independent account combines the harness's count of objective calls with the reference model of Stage 2 (compared with the real run by C03)");
    ctx.sub(
        "metrics",
        "a whole run (fresh or resumed) with a recording observer; non-trivial when Stage 1 was observed or a launch was seen by a callback",
        ctx.n(20000, 400000),
        || {
            prop_oneof![
                2 => obs_case(run_case(ROpt { target: false, ..o }), true),
                4 => obs_case(rich_case(ROpt { target: false, ..o }), true),
                2 => obs_case(rich_case(o), true),
                1 => obs_case(run_case(ROpt { p: POpt { cons: true, ..PLAIN }, ..o }), true),
                1 => obs_case(run_case(ROpt { target: false, max_pop: 130, ..o }), true),
            ]
        },
        |c: &ObsCase| metrics(c, ctx),
    );
    ctx.sub(
        "times",
        "one objective call is slow, in Stage 1 or Stage 2; non-trivial when it happened in an observed stage",
        ctx.n(1500, 20000),
        || (obs_case(rich_case(ROpt { target: false, ..o }), true), any::<u16>(), any::<bool>()).boxed(),
        |(c, at, late): &(ObsCase, u16, bool)| {
            let mut c = c.clone();
            (c.resume, c.run.prob.hole, c.timing) = (None, None, true);
            let Some((seen, acc)) = both(&c, ctx)? else { return Ok(Info::nt(false)) };
            let total = seen.p.log.obj();
            if !acc.ok || seen.result.is_none() {
                return Ok(Info::nt(false));
            }
            let late = *late && total > acc.before;
            let at = if late { acc.before + *at as u64 % (total - acc.before) } else { *at as u64 % acc.before };
            let d = 4000u64;
            let slow = watched(&c, ctx, None, Some((at, d)))?;
            let ob = slow.ob.as_ref().ok_or("no observer")?;
            let secs = d as f64 / 1e6;
            let mut t1 = 0.0;
            if c.sees1() {
                let s1 = ob.stage1_final().ok_or("no Stage 1 state")?;
                t1 = s1.total_time().ok_or("Stage 1 has no total time")?;
                if !late {
                    ensure!(t1 >= secs, "Stage 1 took at least {secs}s but {t1}s is reported");
                }
            }
            let mut t2 = 0.0;
            if c.sees2() && !acc.first.stopped {
                let s2 = ob.stage2().ok_or("no Stage 2 state")?;
                t2 = s2.total_time().ok_or("Stage 2 has no total time")?;
                if late {
                    ensure!(t2 >= secs, "Stage 2 took at least {secs}s but {t2}s is reported");
                }
            }
            ensure!(t1 + t2 <= slow.wall * 1.0001 + 1e-6, "stages took {t1}s and {t2}s of a run of {}s", slow.wall);
            std::thread::sleep(std::time::Duration::from_micros(300));
            if c.sees1() {
                ensure!(ob.stage1_final().and_then(|s| s.total_time()) == Some(t1), "the total time of Stage 1 still grows after the run");
            }
            if c.sees2() && !acc.first.stopped {
                ensure!(ob.stage2().and_then(|s| s.total_time()) == Some(t2), "the total time of Stage 2 still grows after the run");
            }
            // a stage's time, and the elapsed time, never run backwards
            let mut last = 0.0;
            let mut el = 0.0;
            for s in &slow.snaps {
                if let Some(t) = s.t2.filter(|_| c.sees2()) {
                    ensure!(t >= last && t <= t2, "Stage 2 time {t} after {last}, {t2} in the end");
                    last = t;
                }
                let e = s.elapsed.ok_or("timing was requested but there is no elapsed time")?;
                ensure!(e >= el && e <= slow.wall + 1e-6, "elapsed time {e} after {el}, the run took {}", slow.wall);
                el = e;
            }
            Ok(Info::nt((late && c.sees2()) || (!late && c.sees1())).label(late, "stage 2"))
        },
    );
}

const SUBSTAGES: [&str; 6] =
    ["initialization_complete", "diversification_complete", "intensification_complete", "scatter_search_complete", "local_optimization_complete", "stage1_complete"];

pub fn c19(ctx: &Ctx) {
    let o = ROpt { target: true, max_pop: 30, ..RUN };
    ctx.sub(
        "schedule",
        "a whole run (fresh or resumed) with a recording callback of generated mode and frequency; non-trivial when Stage 2 callbacks fired",
        ctx.n(20000, 400000),
        || {
            prop_oneof![
                8 => obs_case(run_case(ROpt { target: false, ..o }), false),
                8 => obs_case(rich_case(ROpt { target: false, ..o }), true),
                8 => obs_case(rich_case(o), false),
                3 => obs_case(run_case(ROpt { p: POpt { cons: true, ..PLAIN }, ..o }), false),
                1 => (obs_case(rich_case(ROpt { target: false, max_pop: 240, ..o }), false), 20usize..130).prop_map(|(mut c, f)| {
                    c.freq = f;
                    c
                }),
            ]
        },
        |c: &ObsCase| {
            let Some((seen, acc)) = both(c, ctx)? else { return Ok(Info::nt(false)) };
            let resumed = acc.s1.is_none();
            let ok = acc.ok && (seen.result.is_some() || acc.last.set.is_empty());
            // ---- which stage is visible when
            let mut stage2 = false;
            let mut fired: Vec<usize> = vec![];
            let mut subs: Vec<String> = vec![];
            let due = |i: usize| c.freq > 0 && i % c.freq == 0;
            let n2 = acc.events.iter().filter(|e| due(e.iter)).count();
            for (i, s) in seen.snaps.iter().enumerate() {
                let in2 = match (c.s1, c.s2) {
                    (true, _) => s.s1.is_none(),
                    (false, true) => s.s2.is_some(),
                    _ => seen.snaps.len() - i <= n2,
                };
                ensure!(in2 || !stage2, "Stage 1 data are shown again after Stage 2 began");
                stage2 |= in2;
                ensure!(!(s.s1.is_some() && s.s2.is_some()), "both stages are visible in one callback");
                if c.s1 && c.s2 {
                    ensure!(s.s1.is_some() || s.s2.is_some(), "no stage is visible in a callback");
                }
                ensure!(s.s1_final == c.s1, "the final Stage 1 snapshot is {}available", if c.s1 { "not " } else { "" });
                ensure!(c.s1 || s.s1.is_none(), "Stage 1 data without tracking it");
                ensure!(c.s2 || s.s2.is_none(), "Stage 2 data without tracking it");
                if s.s1.is_some() {
                    ensure!(s.obj <= acc.before, "Stage 1 is still shown as in progress after {} evaluations, it made {}", s.obj, acc.before);
                    if c.mode == 1 {
                        ensure!(untouched1(s.s1.as_ref().unwrap()), "an observer of Stage 2 only recorded Stage 1");
                    }
                }
                if s.s2.is_some() {
                    ensure!(s.obj >= acc.before, "Stage 2 is shown after {} evaluations, Stage 1 makes {}", s.obj, acc.before);
                    if c.mode == 0 {
                        ensure!(untouched2(s.s2.as_ref().unwrap()), "an observer of Stage 1 only recorded Stage 2");
                    }
                }
                if in2 {
                    if c.sees2() {
                        fired.push(s.s2.as_ref().ok_or("Stage 2 is not visible during Stage 2")?.current_iteration());
                    } else {
                        fired.push(usize::MAX);
                    }
                } else if c.sees1() {
                    subs.push(s.s1.as_ref().map(|s| s.current_substage().to_string()).unwrap_or_default());
                }
                ensure!(s.elapsed.is_some() == c.timing, "elapsed time is {} with timing {}", s.elapsed.is_some(), c.timing);
            }
            if c.sees1() && !resumed && (ok || acc.last.stopped) {
                ensure!(subs == SUBSTAGES, "Stage 1 callbacks came at {subs:?}");
            }
            if resumed {
                ensure!(subs.is_empty() && seen.snaps.iter().all(|s| s.s1.is_none()), "a resumed run shows Stage 1 as in progress");
            }
            // ---- the schedule
            let mut want: Vec<usize> = acc.events.iter().map(|e| e.iter).filter(|i| due(*i)).collect();
            if ok {
                want.sort();
                let target_iter = acc.last.stopped.then(|| acc.events.last().map(|e| e.iter)).flatten();
                if c.sees2() {
                    fired.sort();
                    // the trial that reaches the target ends the run: its callback is optional
                    let opt = |v: &Vec<usize>| v.iter().copied().filter(|i| Some(*i) != target_iter).collect::<Vec<_>>();
                    ensure!(opt(&fired) == opt(&want), "callbacks every {} iterations: fired at {fired:?}, due at {want:?}", c.freq);
                    ensure!(fired.iter().filter(|i| Some(**i) == target_iter).count() <= 1, "two callbacks for one iteration");
                } else {
                    let slack = usize::from(target_iter.is_some_and(due));
                    let n1 = if resumed { 0 } else { seen.snaps.len() - fired.len() };
                    let k = if c.s1 || c.s2 { fired.len() } else { seen.snaps.len() - n1 };
                    ensure!(k <= want.len() && k + slack >= want.len(), "callbacks every {} iterations: fired {k} times, due {} times", c.freq, want.len());
                }
            }
            // ---- after the run
            let ob = seen.ob.as_ref().ok_or("the observer is gone after the run")?;
            ensure!(ob.stage1_final().is_some() == c.s1, "the final Stage 1 snapshot is missing");
            if ok {
                ensure!(ob.stage1().is_none(), "Stage 1 is still shown as in progress after the run");
                if c.mode == 1 {
                    ensure!(ob.stage1_final().is_none_or(untouched1), "an observer of Stage 2 only recorded Stage 1");
                }
                if c.mode == 0 {
                    ensure!(ob.stage2().is_none_or(untouched2), "an observer of Stage 1 only recorded Stage 2");
                }
                if !acc.events.is_empty() {
                    ensure!(ob.stage2().is_some() == c.s2, "Stage 2 data are {} after the run", if c.s2 { "missing" } else { "present" });
                }
                if acc.s1.is_some() && acc.first.stopped {
                    ensure!(ob.stage2().is_none(), "Stage 2 data are shown although the run ended with Stage 1");
                }
            }
            Ok(Info::nt(!fired.is_empty())
                .label(c.freq == 0, "frequency 0")
                .label(c.freq > 1 && !fired.is_empty(), "sparse")
                .label(c.run.batch_size() > 1 && !fired.is_empty(), "batched")
                .label(resumed, "resumed")
                .label(!c.sees2(), "stage 2 not observed")
                .label(!c.sees1(), "stage 1 not observed"))
        },
    );
}
