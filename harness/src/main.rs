mod ck;
mod fw;
mod gen_;
#[cfg(feature = "argmin")]
mod lc;
mod model;
mod prob;
mod props;
use fw::*;
use std::io::Write;
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("child") {
        std::process::exit(props::child(&args[2..]));
    }
    let mut out = capture_stdio();
    install_panic_hook();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let known: serde_json::Value = std::fs::read_to_string(verif.join("known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(serde_json::Value::Null);
    let (id, mode) = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let f = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&f).expect("replay json");
            (
                v["property"].as_str().unwrap().to_string(),
                Mode::Replay { sub: v["sub"].as_str().unwrap().into(), case: v["case"].clone() },
            )
        }
        Some(id) => (id.to_string(), Mode::Search),
        None => {
            let _ = writeln!(out, "usage: vh <property> | vh replay <file>");
            std::process::exit(2);
        }
    };
    // Watchdog: running out of time is inconclusive, never a violation.
    let limit: u64 = std::env::var("VH_LIMIT")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 6 * 3600 } else { 780 });
    {
        let mut o2 = out.try_clone().expect("dup");
        let id2 = id.clone();
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(limit));
            let _ = writeln!(o2, "{id2}: time limit of {limit}s reached, no verdict");
            std::process::exit(3);
        });
    }
    let ctx = Ctx::new(&id, tier, seed, mode, verif, &known);
    let Some((level, f)) = props::find(&id) else {
        let _ = writeln!(out, "unknown property {id}");
        std::process::exit(2);
    };
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&ctx))).is_err() {
        // a panic outside any case is a fault of the harness
        let _ = writeln!(out, "{id}: the harness failed, no verdict: {}", last_panic());
        std::process::exit(2);
    }
    let code = ctx.finish(level, &mut out);
    let _ = out.flush();
    std::process::exit(code);
}
