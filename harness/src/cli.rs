use std::{
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::Command,
};

use crate::{engine, props};

fn verif_dir() -> PathBuf {
    std::env::var("HV_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| Path::new("/verif").to_path_buf())
}

fn config(id: &str, tier: &str) -> engine::Config {
    let dir = verif_dir();
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64;
    engine::Config {
        seed,
        thorough: tier == "thorough",
        scale: std::env::var("HV_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0),
        known: engine::read_known(&dir.join("known_findings.json"), id),
        replay_dir: dir.join("replays"),
        evidence: dir.join("evidence").join(format!("{id}.json")),
        progress: std::env::var("HV_PROGRESS").ok().map(PathBuf::from),
        threads: std::env::var("HV_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(8),
        only_arm: std::env::var("HV_ARM").ok(),
        shrink_secs: std::env::var("HV_SHRINK_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(40),
    }
}

/// The command line of a harness binary
pub fn main() {
    // Errors of the code under test would collect backtraces
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
        ["run", id, tier] => supervise(id, tier),
        ["child", id, tier] => {
            engine::install_panic_hook();
            limit_memory(24);
            let prop = props::find(id).expect("unknown property");
            engine::run_prop(&prop, &config(id, tier))
        }
        ["one", id, tier, arm, idx] => {
            engine::install_panic_hook();
            limit_memory(6);
            // A case takes milliseconds: one that is still running after this long does not end
            unsafe { libc::alarm(80) };
            let prop = props::find(id).expect("unknown property");
            engine::run_one(&prop, &config(id, tier), arm.parse().unwrap(), idx.parse().unwrap())
        }
        ["replay", file] => {
            engine::install_panic_hook();
            let text = std::fs::read_to_string(file).expect("replay file");
            let j: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            let prop = props::find(j["property"].as_str().unwrap()).expect("unknown property");
            let arm = j["arm"].as_str().unwrap();
            if let Some(t) = j["tape"].as_array() {
                let tape = t.iter().map(|v| v.as_u64().unwrap()).collect();
                engine::replay_tape(&prop, arm, tape)
            } else {
                let mut cfg = config(prop.id, j["tier"].as_str().unwrap());
                cfg.seed = j["seed"].as_u64().unwrap();
                let arm_i = prop.arms.iter().position(|a| a.name == arm).unwrap();
                engine::run_one(&prop, &cfg, arm_i, j["index"].as_u64().unwrap())
            }
        }
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: hv run|child ID TIER | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

/// An endless allocation becomes an abort, attributed to its case
fn limit_memory(gb: u64) {
    let lim = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
}

/// Runs the check in a child process, so that a crash of the whole process (stack overflow, abort) is
/// attributed to the case that causes it.
fn supervise(id: &str, tier: &str) -> i32 {
    if props::find(id).is_none() {
        eprintln!("unknown property {id}");
        return 2;
    }
    let exe = std::env::current_exe().unwrap();
    let scratch = tempfile::tempdir().unwrap();
    let progress = scratch.path().join("progress");
    let status = Command::new(&exe)
        .args(["child", id, tier])
        .env("HV_PROGRESS", &progress)
        .status()
        .expect("starting the check");
    if let Some(c) = status.code() {
        if c != engine::STUCK {
            return c;
        }
    }
    eprintln!("check process ended: {status:?}");
    let data = std::fs::read(&progress).unwrap_or_default();
    let prop = props::find(id).unwrap();
    let cfg = config(id, tier);
    let mut candidates: Vec<(u64, u64)> = data
        .chunks_exact(16)
        .map(|c| {
            (
                u64::from_le_bytes(c[..8].try_into().unwrap()),
                u64::from_le_bytes(c[8..].try_into().unwrap()),
            )
        })
        .filter(|c| c.0 > 0)
        .collect();
    candidates.sort();
    for (arm1, idx) in candidates {
        let arm_i = arm1 as usize - 1;
        let st = Command::new(&exe)
            .args(["one", id, tier, &arm_i.to_string(), &idx.to_string()])
            .status()
            .expect("starting a case");
        if st.code().is_none() && st.signal() != Some(libc::SIGKILL) {
            let j = serde_json::json!({
                "property": id, "arm": prop.arms[arm_i].name, "index": idx, "seed": cfg.seed, "tier": tier,
                "signature": "process crash", "message": format!("the process is ended by signal {:?} (14: the case does not end)", st.signal()),
            });
            let path = engine::save_replay(&cfg, id, prop.arms[arm_i].name, &j);
            println!("VIOLATION property={id} replay={}", path.display());
            return 1;
        }
    }
    4
}
