//! C27: what the built-in log callbacks and the verbose mode print is what happened.
use super::common::*;
use super::h_observer::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::model::*;
use crate::prob::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::process::{Command, Stdio};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LogCase {
    obs: ObsCase,
    /// 0 default, 1 stage 1, 2 stage 2, 3 only a frequency, 4 only verbose
    cb: u8,
    unique: bool,
    verbose: bool,
    ck: Option<(usize, bool)>,
}
#[derive(Debug, Serialize, Deserialize)]
struct Job {
    case: LogCase,
    dir: PathBuf,
    resume: bool,
}

/// child: one run with the built-in output
pub fn child_log(args: &[String]) -> i32 {
    let job: Job = serde_json::from_str(&std::fs::read_to_string(&args[0]).expect("job")).expect("job json");
    let c = &job.case;
    let p = Prob::new(&c.obs.run.prob);
    let mut opt = c.obs.run.optimizer(&p);
    if c.cb < 4 {
        let mut o = c.obs.observer();
        if c.unique {
            o = o.unique_updates();
        }
        o = match c.cb {
            0 => o.with_default_callback(),
            1 => o.with_stage1_callback(),
            2 => o.with_stage2_callback(),
            _ => o,
        };
        o = o.with_callback_frequency(c.obs.freq);
        if c.obs.run.seed % 2 == 1 {
            // a copy observes as the original does
            o = o.clone();
        }
        opt = opt.add_observer(o);
    }
    if c.verbose {
        opt = opt.verbose();
    }
    if job.resume {
        opt = opt.with_checkpointing(ckcfg(&job.dir, 1000, true, true)).expect("checkpointing");
    } else if let Some((f, keep)) = c.ck {
        opt = opt.with_checkpointing(ckcfg(&job.dir, f, keep, false)).expect("checkpointing");
    }
    i32::from(opt.run().is_err())
}

/// the numbers of a line, as printed, without those in names such as "Stage 1"
fn numbers(line: &str) -> Vec<String> {
    let line = line.split_once(']').filter(|_| line.starts_with("[Stage")).map_or(line, |x| x.1);
    let mut v = vec![];
    for w in line.split(|c: char| c.is_whitespace() || "[](),;:=|".contains(c)) {
        let w = w.strip_suffix('.').unwrap_or(w);
        if !w.is_empty() && w.parse::<f64>().is_ok() {
            v.push(w.to_string());
        }
    }
    v
}
fn coords(x: &ndarray::Array1<f64>) -> Vec<String> {
    x.iter().map(|v| format!("{v:.6}")).collect()
}

struct Want {
    what: String,
    /// acceptable numbers
    any: Vec<Vec<String>>,
}
fn stage1_line(c: &LogCase, s: &Snap) -> Option<Want> {
    let s1 = s.s1.as_ref()?;
    if c.cb == 2 {
        return None;
    }
    let best = |evals: bool| {
        let mut v = vec![format!("{:.6}", s1.best_objective())];
        if let Some(x) = s1.best_point() {
            v.extend(coords(x));
        }
        if evals {
            v.push(s1.function_evaluations().to_string());
        }
        v
    };
    let want = match s1.current_substage() {
        "scatter_search_running" => vec![],
        // the number of initial points is not part of what observers are documented to know
        "initialization_complete" => vec!["*".to_string()],
        "diversification_complete" => vec![s1.reference_set_size().to_string()],
        "intensification_complete" => vec![s1.trial_points_generated().to_string(), s1.reference_set_size().to_string()],
        "scatter_search_complete" => best(false),
        "local_optimization_complete" => best(true),
        _ => return None,
    };
    Some(Want { what: format!("Stage 1 '{}'", s1.current_substage()), any: vec![want] })
}
fn stage2_line(c: &LogCase, s: &Snap) -> Option<Want> {
    let s2 = s.s2.as_ref()?;
    if c.cb == 1 || s2.current_iteration() == 0 {
        return None;
    }
    let with = |x: Option<&ndarray::Array1<f64>>| {
        let mut v = vec![s2.current_iteration().to_string(), format!("{:.6}", s2.best_objective())];
        if let Some(x) = x {
            v.extend(coords(x));
        }
        v.push(s2.solution_set_size().to_string());
        v.push(format!("{:.6}", s2.threshold_value()));
        v.push(s2.local_solver_calls().to_string());
        v.push(s2.function_evaluations().to_string());
        v
    };
    // the point printed with the best value is one that has it
    let mut any = vec![with(s2.best_point())];
    if let Some(x) = s2.last_added_point() {
        if x.as_slice().is_some_and(|x| same(c.obs.run.prob.value(x), s2.best_objective())) {
            any.push(with(Some(x)));
        }
    }
    Some(Want { what: format!("Stage 2 iteration {}", s2.current_iteration()), any })
}
fn state(s: &Snap) -> Option<[u64; 6]> {
    let s = s.s2.as_ref()?;
    let b = |x: f64| if x == 0.0 { 0 } else { x.to_bits() };
    Some([
        b(s.best_objective()),
        s.solution_set_size() as u64,
        b(s.threshold_value()),
        s.local_solver_calls() as u64,
        s.improved_local_calls() as u64,
        s.function_evaluations() as u64,
    ])
}

fn check_log(c: &LogCase, seen: &Seen, err: &str) -> Result<(usize, usize), String> {
    let lines: Vec<&str> = err.lines().filter(|l| l.starts_with("[Stage ")).collect();
    let mut want: Vec<(bool, Want)> = vec![];
    let mut prev: Option<[u64; 6]> = None;
    let mut filtered = 0;
    for s in &seen.snaps {
        if let Some(w) = stage1_line(c, s) {
            want.push((true, w));
        }
        if let Some(w) = stage2_line(c, s) {
            if c.unique && c.cb != 2 {
                if s.s2.as_ref().is_some_and(|s| s.best_objective().is_nan()) {
                    return Ok((0, 0)); // nothing to compare yet
                }
                let now = state(s);
                if now == prev {
                    filtered += 1;
                    continue;
                }
                prev = now;
            }
            want.push((false, w));
        }
    }
    for (i, (one, w)) in want.iter().enumerate() {
        let Some(l) = lines.get(i) else { return Err(format!("no line is printed for {} ({} of {} lines)", w.what, lines.len(), want.len())) };
        ensure!(l.starts_with("[Stage 1]") == *one, "the line for {} is {l:?}", w.what);
        let got = numbers(l);
        let ok = w.any.iter().any(|v| v.len() == got.len() && v.iter().zip(&got).all(|(a, b)| a == "*" || a == b || close(a, b)));
        ensure!(ok, "the line for {} is {l:?}, expected the numbers {:?}", w.what, w.any[0]);
    }
    ensure!(lines.len() == want.len(), "{} log lines, expected {}: {:?}", lines.len(), want.len(), lines.get(want.len()));
    Ok((want.len(), filtered))
}
/// same value up to one unit of the last printed digit (or a different notation)
fn close(a: &str, b: &str) -> bool {
    match (a.parse::<f64>(), b.parse::<f64>()) {
        (Ok(x), Ok(y)) => same(x, y) || (x.is_nan() && y.is_nan()),
        _ => false,
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Said {
    Local1(f64),
    Rejected(f64),
    New(f64, bool),
    Size(usize),
    Added(usize, f64),
    Adjust(usize, f64, f64),
}
fn close8(a: f64, b: f64) -> bool {
    same(a, b) || (a.is_nan() && b.is_nan()) || format!("{a:.8}") == format!("{b:.8}") || (a - b).abs() <= 1.01e-8_f64.max(1e-15 * a.abs())
}
fn same_said(a: &Said, b: &Said) -> bool {
    match (a, b) {
        (Said::Local1(x), Said::Local1(y)) | (Said::Rejected(x), Said::Rejected(y)) => close8(*x, *y),
        (Said::New(x, p), Said::New(y, q)) => close8(*x, *y) && p == q,
        (Said::Size(x), Said::Size(y)) => x == y,
        (Said::Added(i, x), Said::Added(j, y)) => i == j && close8(*x, *y),
        (Said::Adjust(i, a, b), Said::Adjust(j, c, d)) => i == j && close8(*a, *c) && close8(*b, *d),
        _ => false,
    }
}
fn parse_said(out: &str) -> Vec<Said> {
    let mut v = vec![];
    let f = |n: &[String], i: usize| n.get(i).and_then(|x| x.parse().ok()).unwrap_or(f64::NAN);
    for l in out.lines() {
        let n = numbers(l);
        if l.starts_with("Stage 1: Local solution found") {
            // the stage number is followed by a colon: it is the first number
            v.push(Said::Local1(f(&n, 1)));
        } else if l.starts_with("Solution with objective") && l.contains("rejected") {
            v.push(Said::Rejected(f(&n, 0)));
        } else if l.starts_with("New best solution found") {
            v.push(Said::New(f(&n, 0), true));
        } else if l.starts_with("New solution added") {
            v.push(Said::New(f(&n, 0), false));
        } else if l.starts_with("Solution set size:") {
            v.push(Said::Size(f(&n, 0) as usize));
        } else if l.contains("Added local solution found") {
            v.push(Said::Added(f(&n, 1) as usize, f(&n, 2)));
        } else if l.contains("Adjusting threshold") {
            v.push(Said::Adjust(f(&n, 1) as usize, f(&n, 2), f(&n, 3)));
        }
    }
    v
}

fn expected_said(c: &LogCase, acc: &Account, resumed: bool) -> (Vec<Said>, usize) {
    let spec = &c.obs.run.prob;
    let rejects = |x: &[f64]| c.obs.run.excl && !spec.inside(x);
    let mut v = vec![];
    let mut set: Pts = acc.first.set.clone();
    if !resumed {
        let s = &acc.first.found[0];
        v.push(Said::Local1(s.1));
        if rejects(&s.0) {
            v.push(Said::Rejected(s.1));
        } else {
            v.push(Said::New(s.1, false));
            v.push(Said::Size(1));
        }
    }
    let mut threshold = acc.first.threshold;
    let mut raises = 0;
    for e in &acc.events {
        if e.launched {
            let s = e.st.found.last().unwrap();
            if rejects(&s.0) {
                v.push(Said::Rejected(s.1));
            } else if !same_pts(&set, &e.st.set) {
                let fresh = set.is_empty();
                let pushed = e.st.set.len() > set.len() && !fresh && same_pts(&set, &e.st.set[..set.len()].to_vec());
                v.push(Said::New(s.1, !fresh && !pushed));
                v.push(Said::Size(e.st.set.len()));
                if fresh || pushed {
                    v.push(Said::Added(e.iter, s.1));
                }
            }
        } else if e.st.raises > raises {
            v.push(Said::Adjust(e.iter, threshold, e.st.threshold));
        }
        raises = e.st.raises;
        threshold = e.st.threshold;
        set = e.st.set.clone();
    }
    (v, acc.events.iter().filter(|e| e.launched).count())
}

fn check_verbose(c: &LogCase, acc: &Account, resumed: bool, out: &str, dir: &std::path::Path) -> Result<usize, String> {
    let got = parse_said(out);
    let (want, _) = expected_said(c, acc, resumed);
    for i in 0..want.len().max(got.len()) {
        let (g, w) = (got.get(i), want.get(i));
        let ok = matches!((g, w), (Some(g), Some(w)) if same_said(g, w));
        ensure!(ok, "the {i}th event told is {g:?}, what happened is {w:?}");
    }
    // reaching the target is told if and only if it is reached, with the right value
    let told: Vec<&str> = out.lines().filter(|l| l.contains("Target objective")).collect();
    let reached = acc.first.stopped || acc.last.stopped;
    ensure!(told.is_empty() || reached || resumed, "the target is not reached but the output says {:?}", told[0]);
    ensure!(!reached || !told.is_empty() || acc.events.is_empty() && resumed, "the target is reached but the output does not say so");
    for l in &told {
        let t = c.obs.run.target.unwrap_or(f64::NAN);
        ensure!(numbers(l).last().and_then(|x| x.parse().ok()).is_some_and(|x: f64| resumed || close8(x, t)), "the target is {t:?}, the output says {l:?}");
    }
    // checkpoints named in the output are there
    if !resumed {
        let mut named = vec![];
        for l in out.lines() {
            if let Some((_, f)) = l.split_once("heckpoint saved to: ") {
                let f = PathBuf::from(f);
                ensure!(f.is_file(), "the output names {f:?}, which does not exist");
                named.push(f);
            }
        }
        if let Some((_, true)) = c.ck {
            let mut there: Vec<PathBuf> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.flatten().map(|e| e.path()).collect();
            there.sort();
            named.sort();
            named.dedup();
            ensure!(there == named, "checkpoints written {there:?}, told {named:?}");
        }
    } else {
        let from = acc.first.done;
        let l = out.lines().find(|l| l.starts_with("Resumed from checkpoint"));
        let n = l.map(numbers).unwrap_or_default();
        ensure!(n == [from.to_string(), acc.first.set.len().to_string()], "resuming after {from} trials with {} solutions is told as {l:?}", acc.first.set.len());
        ensure!(!out.contains("Starting Stage 1"), "a resumed run says it starts Stage 1");
    }
    Ok(got.len())
}

fn log_case(base: BoxedStrategy<RunCase>) -> BoxedStrategy<LogCase> {
    (
        obs_case(base, true),
        prop_oneof![3 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8), 2 => Just(4u8)],
        any::<bool>(),
        prop_oneof![3 => Just(true), 1 => Just(false)],
        prop_oneof![2 => Just(None), 2 => (1usize..7, any::<bool>()).prop_map(Some), 1 => Just(Some((0, true)))],
    )
        .prop_map(|(obs, cb, unique, verbose, ck)| LogCase { obs, cb, unique, verbose: verbose || cb == 4, ck })
        .boxed()
}

pub fn c27(ctx: &Ctx) {
    let exe = std::env::current_exe().expect("exe");
    let o = ROpt { target: true, ..RUN };
    ctx.sub(
        "output",
        "the standard output and standard error of a generated run (fresh or resumed) with a built-in log callback, verbose mode or both, in a process of its own, against the states a recording callback saw and the reference model's events; non-trivial when at least five log lines or events of Stage 2 were compared",
        ctx.n(6000, 200000),
        || log_case(prop_oneof![3 => rich_case(o), 1 => run_case(o)].boxed()),
        |c: &LogCase| {
            let Some((seen, acc)) = both(&c.obs, ctx)? else { return Ok(Info::nt(false)) };
            let par = c.obs.run.parallel;
            if par && seen.result.is_none() {
                return Ok(Info::nt(false).label(true, "failing parallel run")); // depends on the schedule
            }
            let tmp = ctx.tmp();
            let dir = tmp.0.join("ck");
            let mut resumed = false;
            if c.obs.resume.is_some() {
                // the same checkpoint `both` resumed from
                let d0 = tmp.0.join("first");
                let p0 = Prob::new(&c.obs.run.prob);
                let r0 = c.obs.run.optimizer(&p0).with_checkpointing(ckcfg(&d0, 1, true, false)).map_err(|e| e.to_string())?.run();
                let cks = read_all(&d0)?;
                if let Some(k) = c.obs.resume.filter(|_| !cks.is_empty() && r0.is_ok()).map(|k| k as usize % cks.len()) {
                    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
                    std::fs::copy(d0.join(format!("s_{:06}.bin", cks[k].0)), dir.join("s_000001.bin")).map_err(|e| e.to_string())?;
                    resumed = true;
                }
            }
            let job = tmp.0.join("job.json");
            let j = Job { case: c.clone(), dir: dir.clone(), resume: resumed };
            std::fs::write(&job, serde_json::to_string(&j).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            let out = Command::new(&exe)
                .args(["child", "log"])
                .arg(&job)
                .env("RAYON_NUM_THREADS", "2")
                .stdin(Stdio::null())
                .output()
                .map_err(|e| e.to_string())?;
            let (so, se) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
            ensure!(out.status.code() == Some(i32::from(seen.result.is_none())), "the run with output ends with {:?}: {}", out.status, se.chars().take(300).collect::<String>());
            let run = &c.obs.run;
            ensure!(
                se.contains("`wait_cycle`") == (run.wait >= run.iters),
                "a wait cycle of {} with {} iterations: {}",
                run.wait,
                run.iters,
                if se.contains("`wait_cycle`") { "warned about" } else { "no warning" }
            );
            ensure!(
                se.contains("batch_iterations") == run.batch.is_some_and(|b| b > run.iters),
                "batches of {:?} trials with {} iterations: {}",
                run.batch,
                run.iters,
                if se.contains("batch_iterations") { "warned about" } else { "no warning" }
            );
            let (mut lines, mut filtered, mut events) = (0, 0, 0);
            if c.cb < 4 {
                (lines, filtered) = check_log(c, &seen, &se)?;
            } else {
                ensure!(!se.contains("[Stage "), "log lines without an observer");
            }
            if c.verbose {
                events = check_verbose(c, &acc, resumed, &so, &dir)?;
            } else {
                ensure!(so.is_empty(), "output without verbose mode: {:?}", so.lines().next());
            }
            Ok(Info::nt(lines + events >= 5 + usize::from(!resumed) * 8)
                .label(lines > 0, "log lines")
                .label(filtered > 0, "unchanged lines left out")
                .label(events > 0, "events told")
                .label(c.verbose && acc.last.raises > 0, "threshold raised")
                .label(c.verbose && acc.last.stopped, "target reached")
                .label(resumed, "resumed")
                .label(par, "parallel"))
        },
    );
}
