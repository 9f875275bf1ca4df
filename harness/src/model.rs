//! Reference model of Stage 2, written from the documentation: filters, wait cycle, solution set.
use crate::gen_::*;
use crate::prob::*;
use crate::props::common::*;
use globalsearch::checkpoint::read_checkpoint_file;
use globalsearch::local_solver::runner::LocalSolver;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::{CheckpointConfig, OQNLPCheckpoint, OQNLPParams};
use ndarray::Array1;
use std::path::Path;

#[derive(Debug, Clone)]
pub struct St {
    pub threshold: f64,
    pub cycles: usize,
    pub set: Pts,
    pub found: Pts,
    pub done: usize,
    pub launches: usize,
    pub raises: usize,
    pub merit_rejects: usize,
    pub dist_rejects: usize,
    pub stopped: bool,
}

/// What one trial did
pub struct Step {
    pub iter: usize,
    pub launched: bool,
    pub improved: bool,
    /// objective calls made by its local search
    pub evals: u64,
}

#[derive(Clone)]
pub struct Rules {
    pub params: OQNLPParams,
    pub abs_tol: f64,
    pub rel_tol: f64,
    pub excl: bool,
    pub target: Option<f64>,
    pub batch: usize,
}
impl Rules {
    pub fn of(c: &RunCase) -> Rules {
        Rules {
            params: c.params(),
            abs_tol: c.abs_tol,
            rel_tol: c.rel_tol,
            excl: c.excl,
            target: c.target,
            batch: c.batch_size().max(1),
        }
    }
    pub fn of_checkpoint(k: &OQNLPCheckpoint) -> Rules {
        Rules {
            params: k.params.clone(),
            abs_tol: k.abs_tol,
            rel_tol: k.rel_tol,
            excl: k.exclude_out_of_bounds,
            target: k.target_objective,
            batch: if k.enable_parallel { k.batch_iterations.unwrap_or(1).max(1) } else { 1 },
        }
    }
    pub fn tol(&self, a: f64, b: f64) -> f64 {
        self.abs_tol.max(self.rel_tol * a.abs().max(b.abs()))
    }
    /// Solution-set rule: keep the best, and ties within tolerance that are not near-duplicates.
    /// Returns true when the solution became the new best (or the first one).
    pub fn insert(&self, spec: &ProbSpec, set: &mut Pts, s: &(Vec<f64>, f64)) -> bool {
        if self.excl && !spec.inside(&s.0) {
            return false;
        }
        if set.is_empty() {
            set.push(s.clone());
            return true;
        }
        let b = set[0].1;
        let tol = self.tol(s.1, b);
        if s.1 < b - tol {
            *set = vec![s.clone()];
            return true;
        }
        let df = self.params.distance_factor;
        if (s.1 - b).abs() <= tol && !set.iter().any(|y| dist2(&s.0, &y.0) < df * df) {
            set.push(s.clone());
        }
        false
    }
    pub fn fold(&self, spec: &ProbSpec, found: &[(Vec<f64>, f64)]) -> Pts {
        let mut set = vec![];
        for s in found {
            self.insert(spec, &mut set, s);
        }
        set
    }
    pub fn reached(&self, set: &Pts) -> bool {
        match self.target {
            Some(t) => set.iter().any(|s| s.1 <= t),
            None => false,
        }
    }
}

pub struct Model<'a> {
    pub rules: Rules,
    pub spec: &'a ProbSpec,
    solver: LocalSolver<Prob>,
    pub prob: Prob,
}
impl<'a> Model<'a> {
    pub fn new(rules: Rules, spec: &'a ProbSpec) -> Model<'a> {
        let prob = Prob::new(spec);
        let solver = LocalSolver::new(
            prob.clone(),
            rules.params.local_solver_type.clone(),
            rules.params.local_solver_config.clone(),
        );
        Model { rules, spec, solver, prob }
    }
    fn local(&self, x: &[f64]) -> Option<(Vec<f64>, f64)> {
        self.solver.solve(Array1::from(x.to_vec())).ok().map(|s| (s.point.to_vec(), s.objective))
    }
    pub fn start(&self, cand: &[f64]) -> Option<St> {
        let s = self.local(cand)?;
        let mut st = St {
            threshold: s.1,
            cycles: 0,
            set: vec![],
            found: vec![s.clone()],
            done: 0,
            launches: 0,
            raises: 0,
            merit_rejects: 0,
            dist_rejects: 0,
            stopped: false,
        };
        self.rules.insert(self.spec, &mut st.set, &s);
        st.stopped = self.rules.reached(&st.set);
        Some(st)
    }
    fn wait(&self, st: &mut St) {
        st.cycles += 1;
        if st.cycles >= self.rules.params.wait_cycle {
            st.threshold += self.rules.params.threshold_factor * (1.0 + st.threshold.abs());
            st.cycles = 0;
            st.raises += 1;
        }
    }
    /// Process one batch of trials. None: a local search fails.
    pub fn batch(&self, st: &mut St, trials: &[(Vec<f64>, f64)]) -> Option<()> {
        self.batch_with(st, trials, |_, _| {})
    }
    /// The same, reporting the state after each trial in the order they take effect.
    pub fn batch_with(&self, st: &mut St, trials: &[(Vec<f64>, f64)], mut each: impl FnMut(&St, &Step)) -> Option<()> {
        let df2 = self.rules.params.distance_factor * self.rules.params.distance_factor;
        let mut launch = vec![];
        let mut quick = vec![];
        for (i, t) in trials.iter().enumerate() {
            let merit = t.1 <= st.threshold;
            let dist = st.found.iter().all(|s| dist2(&t.0, &s.0) > df2);
            if merit && dist {
                launch.push((i, t));
            } else {
                quick.push(i);
                st.merit_rejects += usize::from(!merit);
                st.dist_rejects += usize::from(!dist);
            }
        }
        let first = st.done;
        for i in quick {
            self.wait(st);
            each(st, &Step { iter: first + i, launched: false, improved: false, evals: 0 });
        }
        let results: Option<Vec<_>> = launch
            .iter()
            .map(|(_, t)| {
                let n = self.prob.log.obj();
                self.local(&t.0).map(|s| (s, self.prob.log.obj() - n))
            })
            .collect();
        for ((i, t), (s, evals)) in launch.iter().zip(results?) {
            st.launches += 1;
            st.threshold = t.1;
            let before = st.set.clone();
            if self.rules.insert(self.spec, &mut st.set, &s) {
                st.threshold = s.1;
            }
            st.found.push(s);
            let improved = !same_pts(&before, &st.set);
            st.stopped = self.rules.reached(&st.set);
            each(st, &Step { iter: first + i, launched: true, improved, evals });
            if st.stopped {
                break;
            }
        }
        st.done += trials.len();
        Some(())
    }
    pub fn finish(&self, st: &mut St, order: &[(Vec<f64>, f64)], mut each: impl FnMut(&St)) -> Option<()> {
        let end = self.rules.params.iterations.min(order.len());
        while st.done < end && !st.stopped {
            let to = (st.done + self.rules.batch).min(end);
            let from = st.done;
            self.batch(st, &order[from..to])?;
            each(st);
        }
        Some(())
    }
}

pub fn state_of(k: &OQNLPCheckpoint) -> St {
    St {
        threshold: k.merit_threshold,
        cycles: k.unchanged_cycles,
        set: k.solution_set.as_ref().map(set_vec).unwrap_or_default(),
        found: sols_vec(&k.distance_filter_solutions),
        done: k.current_iteration,
        launches: 0,
        raises: 0,
        merit_rejects: 0,
        dist_rejects: 0,
        stopped: false,
    }
}
pub fn diff_state(got: &St, want: &St) -> Result<(), String> {
    if got.done != want.done {
        return Err(format!("{} trials completed, expected {}", got.done, want.done));
    }
    if !same_pts(&got.found, &want.found) {
        return Err(format!(
            "after {} trials the local solutions found are {} but the filters say {}",
            got.done,
            show(&got.found),
            show(&want.found)
        ));
    }
    if !same(got.threshold, want.threshold) {
        return Err(format!(
            "after {} trials the merit threshold is {:?}, expected {:?}",
            got.done, got.threshold, want.threshold
        ));
    }
    if got.cycles != want.cycles {
        return Err(format!("after {} trials the cycle count is {}, expected {}", got.done, got.cycles, want.cycles));
    }
    if !same_pts(&got.set, &want.set) {
        return Err(format!(
            "after {} trials the solution set is {}, expected {}",
            got.done,
            show(&got.set),
            show(&want.set)
        ));
    }
    Ok(())
}

pub type Stage1 = (Pts, Vec<f64>);
/// Stage 1 run on its own through the public interface.
pub fn stage1(c: &RunCase, p: &Prob) -> Option<Stage1> {
    let mut ss = ScatterSearch::new(p.clone(), c.params()).ok()?.parallel(c.parallel);
    if let Some(cp) = c.custom_points() {
        ss = ss.with_custom_points(cp.outer_iter().map(|r| r.to_owned()).collect());
    }
    let (set, best) = ss.run().ok()?;
    Some((set.into_iter().map(|(x, f)| (x.to_vec(), f)).collect(), best.to_vec()))
}

pub fn ckcfg(dir: &Path, freq: usize, keep_all: bool, auto: bool) -> CheckpointConfig {
    CheckpointConfig {
        checkpoint_dir: dir.to_path_buf(),
        checkpoint_name: "s".into(),
        save_frequency: freq,
        keep_all,
        auto_resume: auto,
    }
}
pub fn read_all(dir: &Path) -> Result<Vec<(usize, OQNLPCheckpoint)>, String> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir).map_err(|e| e.to_string())? {
        let p = e.map_err(|e| e.to_string())?.path();
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        let Some(k) = n.strip_prefix("s_").and_then(|x| x.strip_suffix(".bin")).and_then(|x| x.parse().ok()) else {
            return Err(format!("unexpected file {n} left in the checkpoint directory"));
        };
        v.push((k, read_checkpoint_file(&p).map_err(|e| format!("{n}: {e}"))?));
    }
    v.sort_by_key(|x| x.0);
    Ok(v)
}
/// The trial order recorded in a checkpoint with each point's objective.
pub fn order_of(spec: &ProbSpec, k: &OQNLPCheckpoint) -> Pts {
    k.reference_set.iter().map(|x| (x.to_vec(), spec.eval(&x.to_vec()).unwrap_or(f64::NAN))).collect()
}
pub fn same_multiset(a: &Pts, b: &Pts) -> bool {
    let key = |p: &Pts| {
        let mut v: Vec<Vec<u64>> = p
            .iter()
            .map(|(x, f)| x.iter().chain([f]).map(|v| if *v == 0.0 { 0 } else { v.to_bits() }).collect())
            .collect();
        v.sort();
        v
    };
    key(a) == key(b)
}
