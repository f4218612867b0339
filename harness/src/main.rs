//! Runtime monitors for ur20: `urmon <property> [options]`.

mod checks;
mod core;
mod dev;
mod dict;
mod heap;
mod rig;
mod rng;
mod spec;

use crate::core::*;
use std::{
    path::PathBuf,
    process::{exit, Command},
    time::Duration,
};

#[global_allocator]
static ALLOC: heap::Accounting = heap::Accounting;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(prop) = args.first().cloned() else {
        eprintln!(
            "usage: urmon <property> [--tier quick|thorough] [--seed N] [--evidence FILE] [--out DIR] \
             [--src DIR] [--build NAME] [--scale N] [--threads N] [--budget SECONDS] \
             [--campaign NAME [--index N]] [--replay FILE]"
        );
        exit(2);
    };
    if prop == "literals" {
        // the contents of known_literals.txt
        let d = arg(&args, "--src").unwrap_or_else(|| "/repo/src".into());
        for l in dict::Dict::of(&PathBuf::from(d)).lines() {
            println!("{l}");
        }
        exit(0);
    }
    let Some(check) = checks::get(&prop) else {
        eprintln!("unknown property {prop}");
        exit(2);
    };
    let mut tier = arg(&args, "--tier").unwrap_or_else(|| "quick".into());
    let mut seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut only = arg(&args, "--campaign").map(|c| Only {
        campaign: c,
        index: arg(&args, "--index").and_then(|s| s.parse().ok()),
    });
    if let Some(f) = arg(&args, "--replay") {
        let Ok(s) = std::fs::read_to_string(&f) else {
            eprintln!("cannot read {f}");
            exit(2);
        };
        let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).map(str::to_string));
        seed = get("seed=").and_then(|s| s.parse().ok()).unwrap_or(seed);
        tier = get("tier=").unwrap_or(tier);
        only = get("campaign=").map(|c| Only {
            campaign: c,
            index: get("index=").and_then(|s| s.parse().ok()),
        });
    }
    let out = PathBuf::from(arg(&args, "--out").unwrap_or_else(|| "out".into()));
    let build = arg(&args, "--build").unwrap_or_else(|| "checked".into());
    let worker = std::env::var_os("URMON_WORKER").is_some() || cfg!(miri);
    if !worker {
        // A crash of the code under test must not take the verdict along.
        let exe = match std::env::current_exe() {
            Ok(e) => e,
            Err(e) => {
                eprintln!("{e}");
                exit(2);
            }
        };
        let st = match Command::new(exe).args(&args).env("URMON_WORKER", "1").status() {
            Ok(s) => s,
            Err(e) => {
                eprintln!("{e}");
                exit(2);
            }
        };
        if let Some(c) = st.code() {
            exit(c);
        }
        let sig = {
            use std::os::unix::process::ExitStatusExt;
            st.signal().unwrap_or(0)
        };
        // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
        if [4, 5, 6, 7, 8, 11].contains(&sig) {
            let prog = out.join(format!("{prop}-progress-{build}.txt"));
            let camp = std::fs::read_to_string(&prog).unwrap_or_default();
            let p = out.join(format!("{prop}-replay.txt"));
            let msg = format!("the process was killed by signal {sig} in campaign {camp}");
            let _ = std::fs::write(
                &p,
                format!("property={prop}\ncampaign={camp}\nindex=-\nseed={seed}\ntier={tier}\n\n{msg}\n"),
            );
            println!("{prop} [{build}] {msg}");
            println!("VIOLATION property={prop} replay={}", p.display());
            exit(1);
        }
        eprintln!("INCONCLUSIVE {prop}: the worker was killed by signal {sig}");
        exit(2);
    }
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let threads = arg(&args, "--threads")
        .and_then(|s| s.parse().ok())
        .or_else(|| std::thread::available_parallelism().ok().map(|n| n.get()))
        .unwrap_or(4);
    let cx = Cx {
        prop,
        tier,
        seed,
        threads,
        lits: arg(&args, "--src").map(|d| dict::load(&PathBuf::from(d))).unwrap_or_default(),
        out_dir: out,
        scale: arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1),
        budget: Duration::from_secs(
            arg(&args, "--budget")
                .and_then(|s| s.parse().ok())
                .unwrap_or(if tier == Tier::Quick { 60 } else { 600 }),
        ),
    };
    let ev = arg(&args, "--evidence").map(PathBuf::from);
    exit(run(cx, check, only, ev.as_deref(), &build));
}
