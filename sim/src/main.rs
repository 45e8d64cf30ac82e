//! Deterministic simulation of the ink! language server. See ../../DESIGN.md.

mod canon;
mod check;
mod engine;
mod fresh;
mod gen;
mod lex;
mod life;
mod model;
mod pos;
mod profile;
mod props;
mod props2;
mod rng;
mod seam;
mod specs;
mod srv;
mod worker;
mod world;

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

fn spec(id: &str) -> &'static props::Spec {
    specs::SPECS.iter().find(|s| s.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => cmd_check(&args[2..]),
        Some("replay") if args.len() > 2 => check::replay(Path::new(&args[2]), specs::SPECS),
        Some("worker") if args.len() > 4 => {
            worker::serve(spec(&args[2]), args[3].parse().expect("seed"), Path::new(&args[4]));
            0
        }
        Some("sweep") if args.len() > 4 => cmd_sweep(&args[2..]),
        Some("list") => {
            for s in specs::SPECS {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("usage: inksim check <property> [--tier quick|thorough] [--seed n] [--evidence file] [--replays dir] [--known file] [--runs n] [--cap seconds]");
            eprintln!("       inksim replay <file>");
            eprintln!("       inksim sweep <property|all> <seed> <runs> [log]");
            2
        }
    };
    std::process::exit(code);
}

fn cmd_check(args: &[String]) -> i32 {
    let id = args.first().cloned().unwrap_or_default();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let seed = get("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let a = check::Args {
        tier: get("--tier").unwrap_or_else(|| "quick".to_owned()),
        seed,
        evidence: PathBuf::from(get("--evidence").unwrap_or_else(|| format!("evidence/{id}.json"))),
        replays: PathBuf::from(get("--replays").unwrap_or_else(|| "replays".to_owned())),
        known: get("--known").map(PathBuf::from),
        runs: get("--runs").and_then(|s| s.parse().ok()),
        cap: get("--cap").and_then(|s| s.parse().ok()),
    };
    check::check(spec(&id), &a)
}

/// Exploration without confirmation or evidence: all violations found, by kind.
fn cmd_sweep(args: &[String]) -> i32 {
    let scratch = check::scratch_base().join(format!("inksim.{}", std::process::id()));
    worker::set_up(&scratch);
    let id = &args[0];
    let seed: u64 = args[1].parse().expect("seed");
    let runs: u64 = args[2].parse().expect("runs");
    if args.len() > 3 {
        let job = worker::Job {
            run: runs,
            trace: None,
            log: true,
        };
        let rep = worker::execute(spec(id), seed, &job, &scratch);
        for l in &rep.log {
            println!("{l}");
        }
        println!("{:?} {:?}", rep.viol, rep.cut_short);
        let _ = std::fs::remove_dir_all(&scratch);
        return 0;
    }
    for spec in specs::SPECS.iter().filter(|s| id == "all" || s.id == id) {
        let t0 = std::time::Instant::now();
        let mut keys: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        let (mut steps, mut evals, mut distinct) = (0, 0, std::collections::HashSet::new());
        for run in 0..runs {
            let job = worker::Job {
                run,
                trace: None,
                log: false,
            };
            let rep = worker::execute(spec, seed, &job, &scratch);
            steps += rep.steps;
            evals += rep.evaluations;
            distinct.extend(rep.distinct);
            if let Some((key, detail, i)) = rep.viol {
                keys.entry(key).or_insert((run, 0, format!("op {i}: {detail}"))).1 += 1;
            }
        }
        println!("{}: {runs} runs {steps} steps in {:?}; judged {evals} distinct {}", spec.id, t0.elapsed(), distinct.len());
        for (k, v) in keys {
            println!("   {} x{} first run {} : {}", k, v.1, v.0, check::clip(&v.2, 2500));
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    0
}
