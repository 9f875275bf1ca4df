//! C03 (filters), C04 (nothing lost), C15 (stop criteria)
use super::common::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::model::*;
use crate::prob::*;
use globalsearch::oqnlp::OQNLP;
use globalsearch::types::OQNLPCheckpoint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;

pub struct History {
    /// the run's result, None when it failed
    pub result: Option<Pts>,
    pub cks: Vec<(usize, OQNLPCheckpoint)>,
    pub p: Prob,
}
/// Run with a checkpoint after every trial (or batch), all kept.
pub fn history(ctx: &Ctx, c: &RunCase, tweak: impl FnOnce(OQNLP<Prob>) -> OQNLP<Prob>) -> Result<History, String> {
    let dir = ctx.tmp();
    let p = Prob::new(&c.prob);
    let mut o = tweak(c.optimizer(&p)).with_checkpointing(ckcfg(&dir.0, 1, true, false)).map_err(|e| e.to_string())?;
    let r = o.run();
    let cks = read_all(&dir.0)?;
    Ok(History { result: r.ok().map(|s| set_vec(&s)), cks, p })
}

pub fn c03(ctx: &Ctx) {
    let o = ROpt { target: true, max_pop: 30, ..RUN };
    ctx.assume("the single local search (public LocalSolver) and Stage 1 (public ScatterSearch) used by the reference model are checked by C01, C23 and C05");
    ctx.sub(
        "model",
        "a whole run with a checkpoint after every trial or batch, each compared with the reference model; non-trivial when a trial was launched and another rejected",
        ctx.n(25000, 600000),
        || prop_oneof![2 => run_case(ROpt { target: false, ..o }), 1 => run_case(o), 3 => rich_case(ROpt { target: false, ..o }), 1 => rich_case(o), 1 => run_case(ROpt { p: POpt { cons: true, ..PLAIN }, ..o }), 1 => run_case(ROpt { max_pop: 60, target: false, ..o })],
        |c: &RunCase| {
            let h = history(ctx, c, |o| o)?;
            let p1 = Prob::new(&c.prob);
            let s1 = stage1(c, &p1);
            let m = Model::new(Rules::of(c), &c.prob);
            let Some((set, cand)) = s1 else {
                ensure!(h.result.is_none(), "Stage 1 fails on its own but the run succeeds");
                return Ok(Info::nt(false).label(true, "stage 1 error"));
            };
            let st = m.start(&cand);
            let over = || h.p.log.ranaway() || m.prob.log.ranaway();
            let Some(mut st) = st else {
                ensure!(h.result.is_none() || over(), "the first local search fails on its own but the run succeeds");
                return Ok(Info::nt(false).label(true, "solver error"));
            };
            if st.stopped {
                let Some(r) = &h.result else {
                    ensure!(over(), "the run fails although the first local search reaches the target");
                    return Ok(Info::default());
                };
                ensure!(same_pts(r, &st.set), "the target is reached in Stage 1 with {} but the run returns {}", show(&st.set), show(r));
                return Ok(Info::nt(false).label(true, "target in stage 1"));
            }
            if h.cks.is_empty() {
                ensure!(h.result.is_none(), "the run succeeded without saving any checkpoint");
                // failed in its very first batch: must fail in the model too, whatever comes first
                return Ok(Info::nt(false).label(true, "failed early"));
            }
            let order = order_of(&c.prob, &h.cks[0].1);
            for (_, k) in &h.cks {
                ensure!(
                    order.len() == k.reference_set.len()
                        && k.reference_set.iter().zip(&order).all(|(a, b)| same_vec(&a.to_vec(), &b.0)),
                    "the order of trial points changes during the run"
                );
            }
            ensure!(
                same_multiset(&order, &set),
                "the trial points are not the Stage 1 reference set: {} versus {}",
                show(&order),
                show(&set)
            );
            let mut expected: Vec<St> = vec![];
            let ok = m.finish(&mut st, &order, |s| expected.push(s.clone()));
            if over() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            if expected.is_empty() {
                expected.push(st.clone());
            }
            ensure!(ok.is_some() == h.result.is_some() || (ok.is_none() && h.result.is_none()) || (h.result.is_none() && st.set.is_empty()),
                "the run {} but the model {}", if h.result.is_some() { "succeeds" } else { "fails" }, if ok.is_some() { "succeeds" } else { "fails" });
            ensure!(
                h.cks.len() == expected.len(),
                "checkpoints after {:?} trials, expected after {:?}",
                h.cks.iter().map(|x| x.0).collect::<Vec<_>>(),
                expected.iter().map(|x| x.done).collect::<Vec<_>>()
            );
            for ((n, k), want) in h.cks.iter().zip(&expected) {
                ensure!(*n == k.current_iteration, "checkpoint file {n} holds iteration {}", k.current_iteration);
                diff_state(&state_of(k), want)?;
            }
            if let Some(r) = &h.result {
                ensure!(same_pts(r, &st.set), "returned {} but the last state is {}", show(r), show(&st.set));
            }
            Ok(Info::nt(st.launches > 0 && st.merit_rejects + st.dist_rejects > 0)
                .label(st.launches > 0, "launch")
                .label(st.launches > 1 && c.batch_size() > 1, "batched launches")
                .label(st.raises > 0, "threshold raised")
                .label(st.merit_rejects > 0, "merit reject")
                .label(st.dist_rejects > 0, "distance reject")
                .label(st.stopped, "target stop")
                .label(ok.is_none(), "local solver error"))
        },
    );
}

pub fn c04(ctx: &Ctx) {
    let o = ROpt { max_pop: 40, auto_batch: true, ..RUN };
    ctx.assume("the number of local searches launched is taken from the observer (checked by C18) and the solutions found from the checkpoints (checked by C09)");
    ctx.sub(
        "history",
        "a whole run with its full history of local solutions; non-trivial when the solution set changed after Stage 1",
        ctx.n(30000, 800000),
        || prop_oneof![3 => run_case(o), 4 => rich_case(o), 1 => run_case(ROpt { p: POpt { cons: true, ..PLAIN }, ..o })],
        |c: &RunCase| {
            let dir = ctx.tmp();
            let p = Prob::new(&c.prob);
            let mut opt = c
                .optimizer(&p)
                .add_observer(globalsearch::observers::Observer::new().with_stage2_tracking())
                .with_checkpointing(ckcfg(&dir.0, 1, true, false))
                .map_err(|e| e.to_string())?;
            let r = opt.run();
            let cks = read_all(&dir.0)?;
            if cks.is_empty() {
                return Ok(Info::nt(false));
            }
            let rules = Rules::of(c);
            let mut prev: Option<St> = None;
            let mut changed = false;
            for (_, k) in &cks {
                let st = state_of(k);
                ensure!(!st.found.is_empty(), "no local solution remembered after {} trials", st.done);
                // the set is what the rule makes of the solutions found so far
                let want = rules.fold(&c.prob, &st.found);
                ensure!(
                    same_pts(&st.set, &want),
                    "after {} trials the solutions found are {} and the set is {}, expected {}",
                    st.done,
                    show(&st.found),
                    show(&st.set),
                    show(&want)
                );
                let best = st.set.iter().map(|s| s.1).fold(f64::INFINITY, f64::min);
                for s in st.found.iter().filter(|s| !c.excl || c.prob.inside(&s.0)) {
                    ensure!(
                        s.1 >= best - rules.tol(s.1, best),
                        "the local solution {:?} at {:?} found earlier beats the best {best:?}",
                        s.1,
                        s.0
                    );
                }
                if let Some(p) = &prev {
                    ensure!(
                        st.found.len() >= p.found.len() && same_pts(&st.found[..p.found.len()].to_vec(), &p.found),
                        "a remembered local solution was forgotten"
                    );
                    let pb = p.set.iter().map(|s| s.1).fold(f64::INFINITY, f64::min);
                    ensure!(best <= pb, "the best known objective got worse, from {pb:?} to {best:?}");
                    changed |= !same_pts(&p.set, &st.set);
                } else {
                    changed |= st.found.len() > 1 && !same_pts(&st.set, &st.found[..1].to_vec());
                }
                prev = Some(st);
            }
            let last = prev.unwrap();
            if let Ok(r) = r {
                ensure!(same_pts(&set_vec(&r), &last.set), "returned {} instead of the known set {}", show(&set_vec(&r)), show(&last.set));
                if let Some(s2) = opt.observer().and_then(|o| o.stage2()) {
                    ensure!(
                        s2.local_solver_calls() + 1 == last.found.len(),
                        "{} local searches were launched in Stage 2 but {} solutions are remembered",
                        s2.local_solver_calls(),
                        last.found.len()
                    );
                }
            }
            Ok(Info::nt(changed).label(last.set.len() > 1, "several").label(c.excl && last.found.iter().any(|s| !c.prob.inside(&s.0)), "outside solution"))
        },
    );
    ctx.sub(
        "searches",
        "a run whose searches often end in tied minima; after each trial or batch, the solutions remembered are those of the searches its trials admit from the state before; non-trivial when a batch or trial added several solutions or tied ones",
        ctx.n(10000, 400000),
        || {
            let o = ROpt { max_pop: 40, ..RUN };
            prop_oneof![2 => rich_case(o), 2 => rich_case(o).prop_map(|mut c| { c.prob.tilt = 0.0; c }), 2 => (rich_case(o), prop_oneof![Just(Kind::Step), Just(Kind::Const)]).prop_map(|(mut c, k)| { c.prob.kind = k; c })]
                .prop_map(|mut c| { c.target = None; c })
        },
        |c: &RunCase| {
            let h = history(ctx, c, |o| o)?;
            let m = Model::new(Rules::of(c), &c.prob);
            let (mut tied, mut several, mut both) = (false, false, false);
            let Some((_, first)) = h.cks.first() else { return Ok(Info::nt(false)) };
            let order = order_of(&c.prob, first);
            for w in h.cks.windows(2) {
                let (mut st, now) = (state_of(&w[0].1), state_of(&w[1].1));
                let n = st.found.len();
                ensure!(now.done > st.done && now.done <= order.len(), "{} trials processed, then {}", st.done, now.done);
                let trials = order[st.done..now.done].to_vec();
                let from = st.done;
                if m.batch(&mut st, &trials).is_none() || m.prob.log.ranaway() || h.p.log.ranaway() {
                    return Ok(Info::nt(false).label(true, "cut off"));
                }
                ensure!(
                    same_pts(&now.found, &st.found),
                    "trials {from} to {}: the searches admitted end in {}, remembered are {}",
                    now.done,
                    show(&st.found[n..].to_vec()),
                    show(&now.found[n.min(now.found.len())..].to_vec())
                );
                let added = &st.found[n..];
                let tie = added.iter().enumerate().any(|(i, a)| st.found[..n + i].iter().any(|b| a.1 == b.1 && !same_vec(&a.0, &b.0)));
                tied |= tie;
                several |= added.len() > 1;
                both |= tie && added.len() > 1;
            }
            Ok(Info::nt(tied || several).label(tied, "tied").label(several, "several in a batch").label(both, "tied in a batch"))
        },
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TargetCase {
    run: RunCase,
    /// which local solution's objective becomes the target, and an offset to it in units of its ulp-ish scale
    pick: u8,
    nudge: i8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TimeCase {
    run: RunCase,
    at: u16,
}

pub fn c15(ctx: &Ctx) {
    let o = ROpt { max_pop: 30, ..RUN };
    ctx.sub(
        "target",
        "a run and the same run with a target taken from the objectives it finds; non-trivial when the target stops it in Stage 2 before its end",
        ctx.n(20000, 500000),
        || {
            (prop_oneof![1 => run_case(o), 3 => rich_case(o)], any::<u8>(), -1i8..=1).prop_map(|(run, pick, nudge)| TargetCase { run, pick, nudge }).boxed()
        },
        |c: &TargetCase| {
            let mut c1 = c.run.clone();
            c1.target = None;
            let h = history(ctx, &c1, |o| o)?;
            let Some(full) = &h.result else { return Ok(Info::nt(false)) };
            let last = state_of(&h.cks.last().unwrap().1);
            let rules = Rules::of(&c1);
            // prefer objectives that are reached only in Stage 2
            let better: Vec<f64> = last.found.iter().filter(|s| s.1 < last.found[0].1).map(|s| s.1).collect();
            let f = if !better.is_empty() && c.pick % 8 != 0 {
                better[c.pick as usize % better.len()]
            } else {
                last.found[c.pick as usize % last.found.len()].1
            };
            let t = f + c.nudge as f64 * (1e-3 + f.abs() * 1e-3);
            if !t.is_finite() {
                return Ok(Info::nt(false));
            }
            let mut c2 = c.run.clone();
            c2.target = Some(t);
            let g = history(ctx, &c2, |o| o)?;
            if g.p.log.ranaway() || h.p.log.ranaway() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            let Some(res) = &g.result else {
                return Err("the run with a target fails, the one without does not".into());
            };
            // how many of the found solutions are needed until the target is reached
            let need = (1..=last.found.len()).find(|&n| rules.fold(&c.run.prob, &last.found[..n]).iter().any(|s| s.1 <= t));
            let stopped_at: usize;
            match need {
                None => {
                    ensure!(same_pts(res, full), "the target {t:?} is never reached but the result is {} instead of {}", show(res), show(full));
                    ensure!(g.cks.len() == h.cks.len(), "the target {t:?} is never reached but the run stopped after {} of {} steps", g.cks.len(), h.cks.len());
                    return Ok(Info::nt(false).label(true, "never reached"));
                }
                Some(1) => {
                    ensure!(g.cks.is_empty(), "the target {t:?} is reached in Stage 1 but Stage 2 was entered");
                    ensure!(same_pts(res, &rules.fold(&c.run.prob, &last.found[..1])), "target reached in Stage 1: {}", show(res));
                    // the first local search is the last thing evaluated
                    return Ok(Info::nt(false).label(true, "stage 1"));
                }
                Some(n) => {
                    let end = state_of(&g.cks.last().unwrap().1);
                    let bad = end.found.len() < n
                        || end.found.len() > last.found.len()
                        || !same_pts(&end.found, &last.found[..end.found.len()].to_vec());
                    ensure!(!bad, "target {t:?}: the solutions found {} are not a beginning of {} that reaches it", show(&end.found), show(&last.found));
                    ensure!(
                        same_pts(res, &rules.fold(&c.run.prob, &end.found)),
                        "target {t:?}: returned {} but had found {}",
                        show(res),
                        show(&end.found)
                    );
                    // the batch in which it was reached is the last one processed
                    let k = h.cks.iter().position(|(_, k)| k.distance_filter_solutions.len() >= n).unwrap();
                    ensure!(
                        g.cks.last().unwrap().0 == h.cks[k].0,
                        "target {t:?} is reached by trial {} but {} trials were processed",
                        h.cks[k].0,
                        g.cks.last().unwrap().0
                    );
                    if c.run.batch_size() <= 1 {
                        let (a, b) = (g.p.log.points(), h.p.log.points());
                        if !c.run.parallel {
                            ensure!(a.len() <= b.len() && same_pts(&a, &b[..a.len()].to_vec()), "the stopped run evaluates other points than the unlimited one");
                        }
                        ensure!(end.found.len() == n, "{} solutions found, target reached by the {n}th", end.found.len());
                    }
                    stopped_at = k;
                }
            }
            Ok(Info::nt(stopped_at + 1 < h.cks.len())
                .label(c.run.batch_size() > 1, "batched")
                .label(c.nudge == 0, "exactly attained"))
        },
    );
    ctx.sub(
        "limits",
        "a run with a time limit that has passed before Stage 2 or is never reached; non-trivial when Stage 2 has trials",
        ctx.n(6000, 200000),
        || (run_case(ROpt { target: true, auto_batch: true, ..o }), prop_oneof![Just(-1.0), Just(-1e-9), Just(1e9), Just(1e300), Just(3600.0)])
            .prop_map(|(r, t)| (r, t)).boxed(),
        |(c, t): &(RunCase, f64)| {
            let p = Prob::new(&c.prob);
            let r = c.optimizer(&p).run();
            let q = Prob::new(&c.prob);
            let s = c.optimizer(&q).max_time(*t).run();
            if p.log.ranaway() || q.log.ranaway() {
                return Ok(Info::nt(false).label(true, "cut off"));
            }
            if *t > 0.0 {
                match (&r, &s) {
                    (Ok(a), Ok(b)) => ensure!(same_pts(&set_vec(a), &set_vec(b)), "a time limit of {t:e}s changes the result from {} to {}", show(&set_vec(a)), show(&set_vec(b))),
                    (Err(_), Err(_)) => {}
                    _ => return Err(format!("a time limit of {t:e}s changes whether the run succeeds")),
                }
                // in parallel, a failing run may leave evaluations unfinished
                ensure!((c.parallel && r.is_err()) || p.log.obj() == q.log.obj(), "a time limit of {t:e}s changes the evaluations from {} to {}", p.log.obj(), q.log.obj());
                return Ok(Info::nt(c.iters > 0));
            }
            // nothing of Stage 2 may happen: the result is the first local solution
            let p1 = Prob::new(&c.prob);
            let Some((_, cand)) = stage1(c, &p1) else { return Ok(Info::nt(false)) };
            let m = Model::new(Rules::of(c), &c.prob);
            let Some(st) = m.start(&cand) else { return Ok(Info::nt(false)) };
            match s {
                Ok(s) => ensure!(same_pts(&set_vec(&s), &st.set), "time limit {t:e}s: returned {} instead of the first local solution {}", show(&set_vec(&s)), show(&st.set)),
                Err(_) => ensure!(st.set.is_empty() || q.log.ranaway(), "time limit {t:e}s: the first local solution is not returned"),
            }
            ensure!(q.log.obj() == p1.log.obj() + m.prob.log.obj(), "time limit {t:e}s: {} evaluations, Stage 1 makes {}", q.log.obj(), p1.log.obj() + m.prob.log.obj());
            Ok(Info::nt(true).label(true, "passed before stage 2"))
        },
    );
    ctx.sub(
        "time",
        "the objective overruns the time limit at a chosen Stage 2 evaluation; non-trivial when batches remained",
        ctx.n(2500, 40000),
        || (prop_oneof![1 => run_case(o), 3 => rich_case(o)], any::<u16>()).prop_map(|(run, at)| TimeCase { run, at }).boxed(),
        |c: &TimeCase| {
            let h = history(ctx, &c.run, |o| o)?;
            if h.result.is_none() || h.cks.is_empty() {
                return Ok(Info::nt(false));
            }
            let p1 = Prob::new(&c.run.prob);
            let Some((_, cand)) = stage1(&c.run, &p1) else { return Ok(Info::nt(false)) };
            let m = Model::new(Rules::of(&c.run), &c.run.prob);
            let Some(first) = m.start(&cand) else { return Ok(Info::nt(false)) };
            let before = p1.log.obj() + m.prob.log.obj();
            let total = h.p.log.obj();
            if total <= before || h.p.log.ranaway() {
                return Ok(Info::nt(false));
            }
            let at = before + c.at as u64 % (total - before);
            let dir = ctx.tmp();
            let q = Prob::new(&c.run.prob);
            q.log.delay_us.store(60_000, Ordering::SeqCst);
            q.log.delay_at.store(at + 1, Ordering::SeqCst);
            let r = c.run.optimizer(&q).max_time(0.05).with_checkpointing(ckcfg(&dir.0, 1, true, false)).map_err(|e| e.to_string())?.run();
            let cks = read_all(&dir.0)?;
            let done = cks.last().map(|x| x.0).unwrap_or(0);
            let want = if done == 0 { first.set.clone() } else {
                let Some((_, k)) = h.cks.iter().find(|x| x.0 == done) else {
                    return Err(format!("time limit: stopped after {done} trials, in the middle of a batch"));
                };
                state_of(k).set
            };
            match &r {
                Ok(r) => ensure!(same_pts(&set_vec(r), &want), "time limit: stopped after {done} trials with {} instead of {}", show(&set_vec(r)), show(&want)),
                Err(_) => ensure!(want.is_empty(), "time limit: stopped after {done} trials with an error instead of {}", show(&want)),
            }
            // replaying the batches tells in which one the slow evaluation lies
            let order = order_of(&c.run.prob, &h.cks[0].1);
            let mut st = first;
            let mut batch_end = None;
            m.finish(&mut st, &order, |s| {
                if batch_end.is_none() && p1.log.obj() + m.prob.log.obj() > at {
                    batch_end = Some(s.done);
                }
            });
            let Some(end) = batch_end else { return Ok(Info::nt(false)) };
            ensure!(done <= end, "the time limit passed during the batch ending with trial {end}, but {done} trials were processed");
            Ok(Info::nt(end < h.cks.last().unwrap().0).label(done < end, "stopped earlier"))
        },
    );
}
