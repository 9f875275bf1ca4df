//! C13 (resume continues as if never stopped), C14 (resume with modified parameters)
use super::b_stage2::history;
use super::common::*;
use crate::ck::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::model::*;
use crate::prob::*;
use globalsearch::types::OQNLPCheckpoint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::sync::atomic::Ordering;

fn runs() -> BoxedStrategy<RunCase> {
    let o = ROpt { target: true, max_pop: 24, ..RUN };
    prop_oneof![
        2 => run_case(ROpt { target: false, ..o }),
        1 => run_case(o),
        4 => rich_case(ROpt { target: false, ..o }),
        2 => rich_case(o),
        1 => run_case(ROpt { p: POpt { cons: true, ..PLAIN }, ..o }),
    ]
    .boxed()
}
/// runs that remember many local solutions
fn long_runs() -> BoxedStrategy<RunCase> {
    (rich_case(ROpt { max_pop: 160, target: false, ..RUN }), 60usize..160, 0usize..3)
        .prop_map(|(mut c, pop, k)| {
            c.pop = c.pop.max(pop);
            c.iters = c.pop - k;
            c.df = 0.0;
            c.wait = 1;
            c.tf = 50.0;
            c.solver = super::i_config::quick_solver(3);
            c
        })
        .boxed()
}
/// the settings of another optimizer for the same problem
fn elsewhere(c: &RunCase, d: &RunCase) -> RunCase {
    let mut d = d.clone();
    d.prob = c.prob.clone();
    if c.prob.cons.is_empty() {
        return d;
    }
    d.solver = c.solver.clone();
    d
}
fn put(dir: &Path, n: usize, src: &Path) -> Result<(), String> {
    let name = format!("s_{n:06}.bin");
    std::fs::copy(src.join(&name), dir.join(&name)).map(|_| ()).map_err(|e| format!("{name}: {e}"))
}
fn same_ck(a: &OQNLPCheckpoint, b: &OQNLPCheckpoint) -> Option<String> {
    diff_flat(&flat(a, false), &flat(b, false))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Each {
    c: RunCase,
    other: RunCase,
    picks: Vec<f64>,
    keep_all: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Crashes {
    c: RunCase,
    freq: usize,
    keep_all: bool,
    /// where the attempts crash, as fractions of the objective calls of the whole run
    at: Vec<f64>,
    /// settings of the optimizers that resume (None: the same)
    other: Option<RunCase>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Timed {
    c: RunCase,
    freq: usize,
    keep_all: bool,
    at: f64,
}

fn nontrivial(k: &OQNLPCheckpoint, last: &OQNLPCheckpoint) -> bool {
    k.current_iteration < last.current_iteration
        && k.distance_filter_solutions.len() < last.distance_filter_solutions.len()
}

pub fn c13(ctx: &Ctx) {
    ctx.assume("a crash is simulated by a panic of the user's objective; crashes inside the write of the checkpoint file are C11's");
    ctx.sub(
        "each",
        "a run with a checkpoint after every trial or batch, then several of these checkpoints each resumed on its own by an optimizer with other settings; non-trivial when a local search was launched after the resumed checkpoint",
        ctx.n(12000, 300000),
        || {
            (prop_oneof![40 => runs(), 1 => long_runs()], runs(), prop::collection::vec(frac(), 1..5), any::<bool>())
                .prop_map(|(c, other, picks, keep_all)| Each { c, other, picks, keep_all })
        },
        |e: &Each| {
            let c = &e.c;
            let src = ctx.tmp();
            let p = Prob::new(&c.prob);
            let mut o = c.optimizer(&p).with_checkpointing(ckcfg(&src.0, 1, true, false)).map_err(|e| e.to_string())?;
            let r = o.run();
            if p.log.ranaway() {
                return Ok(Info::default().label(true, "cut off"));
            }
            let Ok(r) = r else { return Ok(Info::default().label(true, "run fails")) };
            let want = set_vec(&r);
            let cks = read_all(&src.0)?;
            let Some((_, last)) = cks.last() else { return Ok(Info::default().label(true, "no checkpoint")) };
            let d = elsewhere(c, &e.other);
            let mut nt = false;
            let mut tried = vec![];
            for f in &e.picks {
                let i = ((f * cks.len() as f64) as usize).min(cks.len() - 1);
                if tried.contains(&i) {
                    continue;
                }
                tried.push(i);
                let (n, k) = &cks[i];
                let dir = ctx.tmp();
                let mut cfg = ckcfg(&dir.0, 1, true, true);
                if e.keep_all {
                    put(&dir.0, *n, &src.0)?;
                } else {
                    cfg.keep_all = false;
                    let m = globalsearch::checkpoint::CheckpointManager::new(cfg.clone()).map_err(|e| e.to_string())?;
                    m.save_checkpoint(k, *n).map_err(|e| e.to_string())?;
                }
                let q = Prob::new(&c.prob);
                let mut o = d.optimizer(&q).with_checkpointing(cfg.clone()).map_err(|e| e.to_string())?;
                let r2 = o.run();
                if q.log.ranaway() {
                    return Ok(Info::default().label(true, "cut off"));
                }
                let got = r2.map_err(|e| format!("resumed after {n} trials the run fails: {e}"))?;
                ensure!(
                    same_pts(&set_vec(&got), &want),
                    "resumed after {n} of {} trials: {} but the uninterrupted run returns {}",
                    last.current_iteration,
                    show(&set_vec(&got)),
                    show(&want)
                );
                if e.keep_all {
                    let mut seen = 0;
                    for (m, k2) in read_all(&dir.0)? {
                        ensure!(m >= *n, "the resumed run saves a checkpoint of iteration {m} although it was resumed at {n}");
                        let Some((_, k1)) = cks.iter().find(|x| x.0 == m) else {
                            return Err(format!("the resumed run saves a checkpoint after {m} trials, the uninterrupted one does not"));
                        };
                        if let Some(x) = same_ck(&k2, k1) {
                            return Err(format!("resumed after {n} trials, the state after {m} differs from the uninterrupted run's: {x}"));
                        }
                        seen += 1;
                    }
                    ensure!(seen == cks.len() - i, "the resumed run saved {seen} states, expected {}", cks.len() - i);
                } else {
                    let m = globalsearch::checkpoint::CheckpointManager::new(cfg).map_err(|e| e.to_string())?;
                    let k2 = m.load_latest_checkpoint().map_err(|e| e.to_string())?;
                    if let Some(x) = same_ck(&k2, last) {
                        return Err(format!("resumed after {n} trials, the final state differs from the uninterrupted run's: {x}"));
                    }
                }
                nt |= nontrivial(k, last);
            }
            Ok(Info::nt(nt).label(c.batch_size() > 1, "batched").label(c.target.is_some(), "target").label(c.excl, "bounds policy"))
        },
    );
    ctx.sub(
        "crashes",
        "a run that crashes at up to four generated places and is resumed each time in the same directory, compared with the same run without crashes; non-trivial when an attempt resumed from a checkpoint and a local search followed",
        ctx.n(12000, 300000),
        || {
            (
                runs(),
                prop_oneof![3 => Just(1usize), 3 => 2usize..8, 1 => Just(0usize), 1 => Just(1000)],
                any::<bool>(),
                prop::collection::vec(frac(), 1..5),
                prop_oneof![1 => Just(None), 1 => runs().prop_map(Some)],
            )
                .prop_map(|(c, freq, keep_all, at, other)| Crashes { c, freq, keep_all, at, other })
        },
        |e: &Crashes| {
            let c = &e.c;
            let src = ctx.tmp();
            let p = Prob::new(&c.prob);
            let mut o = c.optimizer(&p).with_checkpointing(ckcfg(&src.0, e.freq, e.keep_all, false)).map_err(|e| e.to_string())?;
            let r = o.run();
            if p.log.ranaway() {
                return Ok(Info::default().label(true, "cut off"));
            }
            let Ok(r) = r else { return Ok(Info::default().label(true, "run fails")) };
            let want = set_vec(&r);
            let total = p.log.obj();
            let ocfg = ckcfg(&src.0, e.freq, e.keep_all, true);
            let m = globalsearch::checkpoint::CheckpointManager::new(ocfg).map_err(|e| e.to_string())?;
            if !m.checkpoint_exists() {
                return Ok(Info::default().label(true, "no checkpoint"));
            }
            let last = m.load_latest_checkpoint().map_err(|e| e.to_string())?;
            let dir = ctx.tmp();
            let cfg = ckcfg(&dir.0, e.freq, e.keep_all, true);
            let m = globalsearch::checkpoint::CheckpointManager::new(cfg.clone()).map_err(|e| e.to_string())?;
            let mut nt = false;
            let mut crashes = 0;
            let mut done = 0u64;
            let mut got = None;
            for i in 0..=e.at.len() {
                let q = Prob::new(&c.prob);
                if let Some(f) = e.at.get(i) {
                    let n = (f * total as f64) as u64;
                    q.log.panic_at.store(n.saturating_sub(done).max(1), Ordering::SeqCst);
                }
                let before = if m.checkpoint_exists() { Some(m.load_latest_checkpoint().map_err(|e| format!("after a crash: {e}"))?) } else { None };
                let s = match (&before, &e.other) {
                    (Some(_), Some(d)) => elsewhere(c, d),
                    _ => c.clone(),
                };
                let mut o = s.optimizer(&q).with_checkpointing(cfg.clone()).map_err(|e| e.to_string())?;
                let out = no_panic(|| o.run());
                if q.log.ranaway() {
                    return Ok(Info::default().label(true, "cut off"));
                }
                match out {
                    Err(_) => {
                        crashes += 1;
                        done += q.log.obj();
                        if let Some(b) = &before {
                            nt |= nontrivial(b, &last);
                        }
                        continue;
                    }
                    Ok(r) => {
                        if let Some(b) = &before {
                            nt |= nontrivial(b, &last);
                        }
                        got = Some(r.map_err(|e| format!("after {crashes} crashes the resumed run fails: {e}"))?);
                        break;
                    }
                }
            }
            let got = set_vec(&got.ok_or("the last attempt crashed although nothing made it crash")?);
            ensure!(
                same_pts(&got, &want),
                "after {crashes} crashes the resumed run returns {} but the uninterrupted run {}",
                show(&got),
                show(&want)
            );
            let k = m.load_latest_checkpoint().map_err(|e| e.to_string())?;
            if let Some(x) = same_ck(&k, &last) {
                return Err(format!("after {crashes} crashes the final state differs from the uninterrupted run's: {x}"));
            }
            // once more: nothing is left to do
            let q = Prob::new(&c.prob);
            let again = c.optimizer(&q).with_checkpointing(cfg).map_err(|e| e.to_string())?.run();
            let again = again.map_err(|e| format!("resuming the finished run fails: {e}"))?;
            ensure!(same_pts(&set_vec(&again), &want), "resuming the finished run changes its result to {}", show(&set_vec(&again)));
            let k = m.load_latest_checkpoint().map_err(|e| e.to_string())?;
            if let Some(x) = same_ck(&k, &last) {
                return Err(format!("resuming the finished run changes its state: {x}"));
            }
            Ok(Info::nt(nt && crashes > 0)
                .label(crashes > 0, "crashed")
                .label(crashes > 1, "crashed repeatedly")
                .label(e.keep_all, "archive")
                .label(e.freq > 1, "rare saves"))
        },
    );
    ctx.sub(
        "schedule",
        "a run that saves every few trials (archive or single file), compared with the same run saving after every trial or batch; non-trivial when the schedule leaves some states out and keeps one before the last",
        ctx.n(4000, 80000),
        || (runs(), prop_oneof![5 => 2usize..12, 1 => Just(0usize), 1 => Just(1000usize), 1 => Just(usize::MAX)], any::<bool>()),
        |(c, freq, keep_all): &(RunCase, usize, bool)| {
            let h = history(ctx, c, |o| o)?;
            if h.p.log.ranaway() {
                return Ok(Info::default());
            }
            let (Some(want), Some((final_it, last))) = (&h.result, h.cks.last()) else { return Ok(Info::default()) };
            let dir = ctx.tmp();
            let p = Prob::new(&c.prob);
            let mut o = c.optimizer(&p).with_checkpointing(ckcfg(&dir.0, *freq, *keep_all, false)).map_err(|e| e.to_string())?;
            let got = set_vec(&o.run().map_err(|e| format!("saving every {freq} trials, the run fails: {e}"))?);
            ensure!(same_pts(&got, want), "saving every {freq} trials, the run returns {} instead of {}", show(&got), show(want));
            let m = globalsearch::checkpoint::CheckpointManager::new(ckcfg(&dir.0, *freq, *keep_all, false)).map_err(|e| e.to_string())?;
            let k = m.load_latest_checkpoint().map_err(|e| format!("after the run: {e}"))?;
            if let Some(x) = same_ck(&k, last) {
                return Err(format!("saving every {freq} trials, the last state differs: {x}"));
            }
            if !keep_all {
                let n = std::fs::read_dir(&dir.0).map_err(|e| e.to_string())?.count();
                ensure!(n == 1, "{n} files in the checkpoint directory in single-file mode");
                return Ok(Info::nt(false));
            }
            // due: the states in which another multiple of `freq` trials is complete, and the final one
            let mut prev = 0;
            let mut due = vec![];
            for (it, k) in &h.cks {
                if *it == *final_it || (*freq > 0 && it / freq > prev / freq) {
                    due.push((*it, k));
                }
                prev = *it;
            }
            let have = read_all(&dir.0)?;
            let (a, b): (Vec<usize>, Vec<usize>) = (have.iter().map(|x| x.0).collect(), due.iter().map(|x| x.0).collect());
            ensure!(a == b, "saving every {freq} trials, checkpoints of iterations {a:?} exist, due are {b:?}");
            for ((it, x), (_, y)) in have.iter().zip(&due) {
                if let Some(d) = same_ck(x, y) {
                    return Err(format!("saving every {freq} trials, the state of iteration {it} differs: {d}"));
                }
            }
            Ok(Info::nt(due.len() > 1 && due.len() < h.cks.len())
                .label(c.parallel && c.batch.is_some(), "batched")
                .label(due.len() > 1 && due.len() < h.cks.len(), "some left out"))
        },
    );
    ctx.sub(
        "timed",
        "a run stopped by its time limit at some trial and resumed without limit, compared with the run without limit; non-trivial when a local search was launched after the stop",
        ctx.n(3000, 60000),
        || {
            (runs(), prop_oneof![Just(1usize), 2usize..8, Just(0usize)], any::<bool>(), frac())
                .prop_map(|(c, freq, keep_all, at)| Timed { c, freq, keep_all, at })
        },
        |e: &Timed| {
            let h = history(ctx, &e.c, |o| o)?;
            if h.p.log.ranaway() {
                return Ok(Info::default());
            }
            let (Some(want), Some((_, last))) = (h.result, h.cks.last()) else { return Ok(Info::default()) };
            let dir = ctx.tmp();
            let cfg = ckcfg(&dir.0, e.freq, e.keep_all, true);
            let q = Prob::new(&e.c.prob);
            // the limit passes while one objective call sleeps
            q.log.delay_us.store(3000, Ordering::SeqCst);
            q.log.delay_at.store((e.at.sqrt() * h.p.log.obj() as f64) as u64 + 1, Ordering::SeqCst);
            let limit = if e.at < 0.15 { 0.0 } else { 0.002 };
            let mut o = e.c.optimizer(&q).max_time(limit).with_checkpointing(cfg.clone()).map_err(|e| e.to_string())?;
            let r = o.run();
            if r.is_err() {
                return Ok(Info::default().label(true, "nothing admissible before the stop"));
            }
            let m = globalsearch::checkpoint::CheckpointManager::new(cfg.clone()).map_err(|e| e.to_string())?;
            ensure!(m.checkpoint_exists(), "the run stopped by its time limit saves no checkpoint");
            let k = m.load_latest_checkpoint().map_err(|e| e.to_string())?;
            let q = Prob::new(&e.c.prob);
            let mut o = e.c.optimizer(&q).with_checkpointing(cfg).map_err(|e| e.to_string())?;
            let got = set_vec(&o.run().map_err(|e| format!("the resumed run fails: {e}"))?);
            ensure!(same_pts(&got, &want), "resumed after the time limit ({} trials): {} but the unlimited run returns {}", k.current_iteration, show(&got), show(&want));
            let k2 = m.load_latest_checkpoint().map_err(|e| e.to_string())?;
            if let Some(x) = same_ck(&k2, last) {
                return Err(format!("resumed after the time limit, the final state differs from the unlimited run's: {x}"));
            }
            Ok(Info::nt(nontrivial(&k, last)).label(k.current_iteration < last.current_iteration, "stopped early").label(k.current_iteration == 0, "stopped before the first trial"))
        },
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Modified {
    c: RunCase,
    /// the new parameters
    new: RunCase,
    /// new population / iterations relative to the old ones
    grow: usize,
    it: f64,
    /// settings of the optimizer that resumes
    host: RunCase,
    pick: f64,
    auto: bool,
    by_path: bool,
    /// the directory also holds the later checkpoints of the first run
    later: bool,
    again: f64,
    /// the checkpoint was saved by a run resumed with a smaller population before (percentage of the old one)
    shrunk: Option<u8>,
}

pub fn c14(ctx: &Ctx) {
    ctx.assume("the single local search used by the reference model is checked by C01 and C23");
    ctx.sub(
        "modified",
        "a run with all checkpoints, then one of them resumed with generated new parameters (latest in the directory or explicit file), every following checkpoint compared with the reference model continued from the saved state; non-trivial when trials were left to process under the new parameters and a local search was launched",
        ctx.n(20000, 500000),
        || {
            (
                (prop_oneof![60 => runs(), 1 => long_runs()], runs(), runs()),
                prop_oneof![2 => Just(0usize), 3 => 1usize..30, 2 => Just(1000usize)],
                frac(),
                frac(),
                (any::<bool>(), any::<bool>(), any::<bool>()),
                frac(),
                prop_oneof![3 => Just(None), 1 => (0u8..100).prop_map(Some)],
            )
                .prop_map(|((c, new, host), grow, it, pick, (auto, by_path, later), again, shrunk)| Modified { c, new, grow, it, host, pick, auto, by_path, later, again, shrunk })
        },
        |e: &Modified| {
            let c = &e.c;
            let src = ctx.tmp();
            let p = Prob::new(&c.prob);
            let mut o = c.optimizer(&p).with_checkpointing(ckcfg(&src.0, 1, true, false)).map_err(|e| e.to_string())?;
            let r = o.run();
            if p.log.ranaway() || r.is_err() {
                return Ok(Info::default().label(true, "run fails"));
            }
            let mut cks = read_all(&src.0)?;
            if cks.is_empty() {
                return Ok(Info::default().label(true, "no checkpoint"));
            }
            let i = ((e.pick * cks.len() as f64) as usize).min(cks.len() - 1);
            if let Some(s) = e.shrunk {
                // as a run with a smaller population would have saved it: the larger reference set is kept
                let (n, k) = &mut cks[i];
                k.params.population_size = 3 + (k.params.population_size - 3) * s as usize / 100;
                k.params.iterations = k.params.iterations.min(k.params.population_size);
                let m = globalsearch::checkpoint::CheckpointManager::new(ckcfg(&src.0, 1, true, false)).map_err(|e| e.to_string())?;
                m.save_checkpoint(k, *n).map_err(|e| e.to_string())?;
            }
            let (n, k) = &cks[i];
            // the new parameters: valid ones
            let mut new = elsewhere(c, &e.new);
            if e.grow < 1000 {
                new.pop = c.pop + e.grow;
            }
            new.iters = match e.it {
                x if x < 0.2 => n + ((x * 5.0) * (new.pop.saturating_sub(*n)) as f64) as usize,
                _ => new.pop,
            }
            .clamp(1, new.pop);
            let params = new.params();
            let dir = ctx.tmp();
            let mut o = elsewhere(c, &e.host);
            let q = Prob::new(&c.prob);
            o.custom = vec![];
            let o = o.optimizer(&q);
            let mut o = o.with_checkpointing(ckcfg(&dir.0, 1, true, e.auto)).map_err(|e| e.to_string())?;
            let resumed = if e.by_path {
                if e.later {
                    for (m, _) in &cks {
                        put(&dir.0, *m, &src.0)?;
                    }
                }
                o.resume_from_checkpoint_with_params(&src.0.join(format!("s_{n:06}.bin")), params.clone()).map(|_| true)
            } else {
                put(&dir.0, *n, &src.0)?;
                o.resume_with_modified_params(params.clone())
            };
            match resumed {
                Ok(true) => {}
                Ok(false) => return Err("the checkpoint that exists is not resumed".into()),
                Err(_) if !c.prob.cons.is_empty() => return Ok(Info::default().label(true, "expansion fails")),
                Err(x) => return Err(format!("resuming fails: {x}")),
            }
            let r = o.run();
            if q.log.ranaway() {
                return Ok(Info::default().label(true, "cut off"));
            }
            // what the reference model says
            let mut rules = Rules::of_checkpoint(k);
            rules.params = params.clone();
            let m = Model::new(rules, &c.prob);
            let mut st = state_of(k);
            st.stopped = m.rules.reached(&st.set);
            let read = |it: usize| globalsearch::checkpoint::read_checkpoint_file(&dir.0.join(format!("s_{it:06}.bin"))).map_err(|x| format!("no state saved after {it} trials: {x}"));
            // the extended reference set, from the first state saved after resuming
            let first = if st.stopped || st.done >= params.iterations { st.done } else { (st.done + m.rules.batch).min(params.iterations) };
            let r = match r {
                Ok(r) => set_vec(&r),
                Err(x) => {
                    // fails only if a local search fails under the model, too
                    let Ok(k2) = read(first) else { return Ok(Info::default().label(true, "solver error")) };
                    let order = order_of(&c.prob, &k2);
                    let ok = m.finish(&mut st, &order, |_| {});
                    ensure!(ok.is_none() || m.prob.log.ranaway() || st.set.is_empty(), "the resumed run fails: {x}");
                    return Ok(Info::default().label(true, "solver error"));
                }
            };
            let k2 = read(first)?;
            let want_len = k.reference_set.len().max(if params.population_size > k.params.population_size { params.population_size } else { 0 });
            ensure!(
                k2.reference_set.len() == want_len,
                "population {} -> {}: {} reference points after resuming, {} saved",
                k.params.population_size,
                params.population_size,
                k2.reference_set.len(),
                k.reference_set.len()
            );
            for (j, (a, b)) in k.reference_set.iter().zip(&k2.reference_set).enumerate() {
                ensure!(same_vec(&a.to_vec(), &b.to_vec()), "saved reference point {j} {a} was replaced by {b}");
            }
            for j in k.reference_set.len()..k2.reference_set.len() {
                let x = k2.reference_set[j].to_vec();
                ensure!(c.prob.inside(&x), "the added reference point {x:?} is out of bounds");
                ensure!(c.prob.feasible(&x), "the added reference point {x:?} is infeasible");
                ensure!(!k2.reference_set[..j].iter().any(|y| same_vec(&y.to_vec(), &x)), "the added reference point {x:?} is a duplicate");
            }
            let order = order_of(&c.prob, &k2);
            let mut expected = vec![];
            let ok = m.finish(&mut st, &order, |s| expected.push(s.clone()));
            if m.prob.log.ranaway() {
                return Ok(Info::default().label(true, "cut off"));
            }
            ensure!(ok.is_some(), "a local search fails on its own but the resumed run succeeds");
            let left = !expected.is_empty();
            if expected.is_empty() {
                expected.push(st.clone());
            }
            for s in &expected {
                let k3 = read(s.done)?;
                ensure!(
                    diff_flat(&flat_cfg(&k3.params.local_solver_config), &flat_cfg(&params.local_solver_config)).is_none()
                        && k3.params.iterations == params.iterations
                        && k3.params.population_size == params.population_size
                        && k3.params.wait_cycle == params.wait_cycle
                        && same(k3.params.threshold_factor, params.threshold_factor)
                        && same(k3.params.distance_factor, params.distance_factor)
                        && k3.params.seed == params.seed,
                    "the state saved after {} trials does not hold the new parameters: {:?}",
                    s.done,
                    k3.params
                );
                ensure!(
                    k3.reference_set.len() == order.len() && k3.reference_set.iter().zip(&order).all(|(a, b)| same_vec(&a.to_vec(), &b.0)),
                    "the order of trial points changes after resuming"
                );
                diff_state(&state_of(&k3), s).map_err(|x| format!("resumed after {n} trials with {params:?}: {x}"))?;
            }
            ensure!(same_pts(&r, &st.set), "returned {} but the last state is {}", show(&r), show(&st.set));
            let want: std::collections::BTreeSet<usize> = expected.iter().map(|s| s.done).chain([*n]).collect();
            if !e.by_path || !e.later {
                for (it, _) in read_all(&dir.0)? {
                    ensure!(want.contains(&it), "a state was saved after {it} trials, expected {want:?}");
                }
            }
            // interrupted again, it continues under the new parameters
            let j = ((e.again * expected.len() as f64) as usize).min(expected.len() - 1);
            let dir2 = ctx.tmp();
            put(&dir2.0, expected[j].done, &dir.0)?;
            let q = Prob::new(&c.prob);
            let mut o = c.optimizer(&q).with_checkpointing(ckcfg(&dir2.0, 1, true, true)).map_err(|e| e.to_string())?;
            let r2 = o.run().map_err(|e| format!("interrupted again, the resumed run fails: {e}"))?;
            ensure!(same_pts(&r, &set_vec(&r2)), "interrupted again after {} trials, the resumed run returns {} instead of {}", expected[j].done, show(&set_vec(&r2)), show(&r));
            Ok(Info::nt(left && st.launches > 0)
                .label(left, "trials left")
                .label(e.shrunk.is_some(), "smaller population before")
                .label(params.population_size > k.params.population_size, "larger population")
                .label(params.population_size < k.params.population_size, "smaller population")
                .label(st.done > k.params.population_size, "added points tried")
                .label(!same(params.distance_factor, k.params.distance_factor), "other distance factor")
                .label(e.auto, "automatic resume on")
                .label(e.by_path, "explicit file"))
        },
    );
}
