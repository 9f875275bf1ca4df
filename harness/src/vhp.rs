//! Runs generated cases in a build with other features; talks JSON lines over stdin/stdout.
#![allow(dead_code)]
mod gen_;
mod prob;
use gen_::*;
use prob::*;
use globalsearch::scatter_search::ScatterSearch;
use std::io::{BufRead, Write};
use std::os::fd::FromRawFd;

type Pts = Vec<(Vec<f64>, f64)>;
fn bits(p: &Pts) -> Vec<Vec<u64>> {
    p.iter().map(|(x, f)| x.iter().chain([f]).map(|v| v.to_bits()).collect()).collect()
}
fn main() {
    let mut out = unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        std::fs::File::from_raw_fd(keep)
    };
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let (what, c): (String, RunCase) = serde_json::from_str(&line).expect("case");
        let p = Prob::new(&c.prob);
        let r: Result<Vec<Vec<u64>>, String> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if what == "stage1" {
                let mut ss = ScatterSearch::new(p.clone(), c.params()).map_err(|e| e.to_string())?;
                #[cfg(feature = "rayon")]
                {
                    ss = ss.parallel(c.parallel);
                }
                if let Some(cp) = c.custom_points() {
                    ss = ss.with_custom_points(cp.outer_iter().map(|r| r.to_owned()).collect());
                }
                let (set, best) = ss.run().map_err(|e| e.to_string())?;
                let mut v: Pts = set.into_iter().map(|(x, f)| (x.to_vec(), f)).collect();
                v.push((best.to_vec(), 0.0));
                Ok(bits(&v))
            } else {
                let s = c.optimizer(&p).run().map_err(|e| e.to_string())?;
                Ok(bits(&s.solutions.iter().map(|l| (l.point.to_vec(), l.objective)).collect()))
            }
        }))
        .unwrap_or_else(|_| Err("panic".into()));
        let mut log = bits(&p.log.points());
        log.sort();
        let ans = serde_json::json!({"r": r, "log": log.len(), "hash": log.iter().flatten().fold(7u64, |h, v| (h ^ v).wrapping_mul(0x100000001b3)), "ran": p.log.ranaway()});
        writeln!(out, "{ans}").expect("answer");
    }
}
