//! The check of one property: seeded search over simulated runs, confirmation and minimisation of
//! what it finds, and the evidence of what it covered.

use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::props::Spec;
use crate::worker::{self, Job, Report};
use crate::world::{Trace, K};

const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0004_0000;

struct Worker {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    scratch: PathBuf,
}

impl Worker {
    fn start(spec: &Spec, seed: u64, n: usize) -> Worker {
        let scratch = scratch_base().join(format!("inksim.{}.{n}", std::process::id()));
        let mut cmd = Command::new(std::env::current_exe().expect("exe"));
        cmd.args(["worker", spec.id, &seed.to_string()]).arg(&scratch).stdin(Stdio::piped()).stdout(Stdio::piped());
        unsafe {
            cmd.pre_exec(|| {
                // Addresses must not be a source of nondeterminism either.
                libc::personality(ADDR_NO_RANDOMIZE);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = cmd.spawn().expect("worker");
        let stdin = child.stdin.take().expect("stdin");
        let stdout = BufReader::new(child.stdout.take().expect("stdout"));
        Worker {
            child,
            stdin,
            stdout,
            scratch,
        }
    }

    fn run(&mut self, job: &Job) -> Option<Report> {
        writeln!(self.stdin, "{}", serde_json::to_string(job).expect("job")).ok()?;
        self.stdin.flush().ok()?;
        let mut line = String::new();
        self.stdout.read_line(&mut line).ok()?;
        serde_json::from_str(&line).ok()
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.scratch);
    }
}

/// Memory-backed when possible: the simulated disk is written anew for every run.
pub fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let probe = shm.join(format!(".inksim.{}", std::process::id()));
    if std::fs::write(&probe, b"x").is_ok() {
        let _ = std::fs::remove_file(&probe);
        return shm.to_owned();
    }
    std::env::temp_dir()
}

pub fn threads() -> usize {
    std::env::var("INKSIM_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub violation: String,
    pub detail: String,
    pub seed: u64,
    pub run: u64,
    /// Index of the operation at which the violation shows.
    pub at: usize,
    /// Hash over everything that was exchanged; a replay must reproduce it.
    pub history: String,
    pub trace: Trace,
    pub log: Vec<String>,
}

/// Findings that are recorded instead of repaired: `known: property=<id> key=<violation> :: <substring of the detail> :: <what fails>`.
struct Known {
    key: String,
    part: String,
    what: String,
}

fn known_findings(path: Option<&Path>, id: &str) -> Vec<Known> {
    let Some(text) = path.and_then(|p| std::fs::read_to_string(p).ok()) else {
        return vec![];
    };
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} key=")))
        .filter_map(|l| {
            let mut it = l.splitn(3, " :: ");
            Some(Known {
                key: it.next()?.trim().to_owned(),
                part: it.next()?.trim().to_owned(),
                what: it.next()?.trim().to_owned(),
            })
        })
        .collect()
}

#[derive(Default)]
struct Totals {
    runs: u64,
    steps: u64,
    sim_ns: i128,
    evaluations: u64,
    distinct: HashSet<u64>,
    histories: HashSet<u64>,
    samples: Vec<String>,
    faults: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    cut: BTreeMap<String, u64>,
    repeats: u64,
    repeat_mismatches: u64,
    found: Vec<Report>,
    known_hit: BTreeMap<String, u64>,
}

pub struct Args {
    pub tier: String,
    pub seed: u64,
    pub evidence: PathBuf,
    pub replays: PathBuf,
    pub known: Option<PathBuf>,
    pub runs: Option<u64>,
    pub cap: Option<u64>,
}

pub fn check(spec: &Spec, a: &Args) -> i32 {
    let t0 = Instant::now();
    let thorough = a.tier == "thorough";
    let target = a.runs.unwrap_or(if thorough { spec.thorough } else { spec.quick });
    let cap = Duration::from_secs(a.cap.unwrap_or(if thorough { 3000 } else { 240 }));
    let known = known_findings(a.known.as_deref(), spec.id);
    let n = threads();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let totals = Mutex::new(Totals::default());
    let seed = a.seed;
    std::thread::scope(|sc| {
        for i in 0..n {
            let (next, stop, totals, known) = (&next, &stop, &totals, &known);
            sc.spawn(move || {
                let mut w = Worker::start(spec, seed, i);
                while !stop.load(Ordering::SeqCst) && t0.elapsed() < cap {
                    let run = next.fetch_add(1, Ordering::SeqCst);
                    if run >= target {
                        break;
                    }
                    let job = Job {
                        run,
                        trace: None,
                        log: false,
                    };
                    let Some(rep) = w.run(&job) else {
                        w = Worker::start(spec, seed, i);
                        let mut t = totals.lock().unwrap();
                        *t.cut.entry("worker lost".to_owned()).or_default() += 1;
                        continue;
                    };
                    // One run in 64 is executed twice: the same seed must give the same history.
                    let again = if run % 64 == 7 && rep.viol.is_none() && rep.cut_short.is_none() {
                        w.run(&job)
                    } else {
                        None
                    };
                    let mut t = totals.lock().unwrap();
                    if let Some(again) = again {
                        t.repeats += 1;
                        if again.hash != rep.hash {
                            t.repeat_mismatches += 1;
                        }
                    }
                    t.absorb(&rep);
                    if let Some((key, detail, _)) = &rep.viol {
                        if let Some(k) = known.iter().find(|k| k.key == *key && detail.contains(&k.part)) {
                            *t.known_hit.entry(k.what.clone()).or_default() += 1;
                        } else {
                            t.found.push(rep);
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
            });
        }
    });
    let mut t = totals.into_inner().unwrap();
    let searched = t0.elapsed();
    t.found.sort_by_key(|r| r.run);
    let mut reported = None;
    let mut unconfirmed = vec![];
    for rep in t.found.iter().take(8) {
        let (key, detail, at) = rep.viol.clone().expect("violation");
        match confirm_and_minimise(spec, seed, rep, n, if thorough { 120 } else { 60 }) {
            Some(replay) => {
                let _ = std::fs::create_dir_all(&a.replays);
                let path = a.replays.join(format!("{}-seed{}-run{}.json", spec.id, seed, rep.run));
                std::fs::write(&path, serde_json::to_string_pretty(&replay).expect("replay")).expect("replay file");
                println!("property {}: {}", spec.id, replay.violation);
                println!("  {}", clip(&replay.detail, 1500));
                println!("  seed {seed}, run {}, minimised to {} of {} operations", rep.run, replay.trace.ops.len(), at + 1);
                for l in replay.log.iter().rev().take(6).rev() {
                    println!("  | {}", clip(l, 300));
                }
                println!("VIOLATION property={} replay={}", spec.id, path.display());
                reported = Some(path);
                break;
            }
            None => unconfirmed.push(json!({"run": rep.run, "key": key, "detail": clip(&detail, 400)})),
        }
    }
    for (what, n) in &t.known_hit {
        println!("KNOWN-FINDING: property={} {what} ({n} runs)", spec.id);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": spec.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.distinct.len(),
            "rule": spec.rule,
            "samples": t.samples,
            "simulated_runs": t.runs,
            "runs_planned": target,
            "runs_per_hour": (t.runs as f64 / searched.as_secs_f64().max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (t.runs as f64 / searched.as_secs_f64().max(0.001) * 3600.0) as u64,
            "messages_handled": t.steps,
            "simulated_time_s": (t.sim_ns / 1_000_000_000) as i64,
            "faults_injected": t.faults,
            "operations": t.ops,
            "distinct_histories": t.histories.len(),
            "distinct_histories_measure": "distinct hashes over the whole exchanged message sequence, disk changes and faults of a run",
            "runs_cut_short": t.cut,
            "determinism": {"runs_repeated": t.repeats, "repeats_that_differed": t.repeat_mismatches},
            "unconfirmed": unconfirmed,
            "known_findings_hit": t.known_hit,
            "real_components": ["ink_lsp_server::initialize", "ink_lsp_server::main_loop (dispatcher, routers, handlers, translator, memory)", "ink-analyzer", "ink-analyzer-ir", "lsp-server shutdown handling", if spec.id == "P13" { "the shipped binary's main and its stdio threads" } else { "(the binary's main is bypassed)" }],
            "stubbed_components": ["editor: seeded client model", "transport: rendezvous channels instead of stdio", "file system: scratch tree behind interposed libc calls, faults injected there", "clock and timers: simulated", "getrandom: seeded (decides HashMap order)"],
        },
        "assumptions": [
            "one run is one process forked for it; a simulated server restart replaces the server's thread and all of its state, not the process",
            "the server is single threaded, so the schedule is the interleaving of client messages, disk changes, faults, clock moves and restarts",
        ],
        "wall_s": wall,
        "violations": i32::from(reported.is_some()),
    });
    if let Some(d) = a.evidence.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&a.evidence, serde_json::to_string_pretty(&ev).expect("evidence")).expect("evidence file");
    println!(
        "{}: {} runs ({} messages, {} judgements, {} distinct) in {:.1} s, {} cut short, {} repeats ({} differed)",
        spec.id,
        t.runs,
        t.steps,
        t.evaluations,
        t.distinct.len(),
        wall,
        t.cut.values().sum::<u64>(),
        t.repeats,
        t.repeat_mismatches
    );
    i32::from(reported.is_some())
}

impl Totals {
    fn absorb(&mut self, r: &Report) {
        self.runs += 1;
        self.steps += r.steps;
        self.sim_ns += i128::from(r.sim_ns);
        self.evaluations += r.evaluations;
        self.distinct.extend(r.distinct.iter().copied());
        self.histories.insert(r.hash);
        if self.samples.len() < 5 {
            self.samples.extend(r.samples.iter().take(1).cloned());
        }
        for (k, v) in &r.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.ops {
            *self.ops.entry(k.clone()).or_default() += v;
        }
        if let Some(c) = &r.cut_short {
            *self.cut.entry(clip(c, 160)).or_default() += 1;
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        format!("{}…", s.chars().take(n).collect::<String>())
    }
}

/// Tries candidates in parallel; the first (in order) that shows the same violation wins.
struct Pool {
    workers: Vec<Worker>,
    deadline: Instant,
    tries: u64,
}

impl Pool {
    fn first(&mut self, key: &str, cands: &[Trace]) -> Option<(usize, Report)> {
        let mut i = 0;
        while i < cands.len() {
            if Instant::now() > self.deadline {
                return None;
            }
            let n = self.workers.len().min(cands.len() - i);
            let batch = &cands[i..i + n];
            let reps: Vec<Option<Report>> = std::thread::scope(|sc| {
                let hs: Vec<_> = self
                    .workers
                    .iter_mut()
                    .zip(batch)
                    .map(|(w, t)| {
                        sc.spawn(move || {
                            w.run(&Job {
                                run: 0,
                                trace: Some(t.clone()),
                                log: false,
                            })
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().ok().flatten()).collect()
            });
            self.tries += n as u64;
            for (j, r) in reps.into_iter().enumerate() {
                if let Some(r) = r {
                    if r.viol.as_ref().is_some_and(|v| v.0 == key) {
                        return Some((i + j, r));
                    }
                }
            }
            i += n;
        }
        None
    }
}

fn ddmin<T: Clone>(items: &[T], mut test: impl FnMut(&[Vec<T>]) -> Option<usize>) -> Vec<T> {
    let mut cur = items.to_vec();
    let mut chunk = cur.len().div_ceil(2).max(1);
    while !cur.is_empty() {
        let mut cands = vec![];
        let mut i = 0;
        while i < cur.len() {
            let end = (i + chunk).min(cur.len());
            let mut c = cur[..i].to_vec();
            c.extend_from_slice(&cur[end..]);
            cands.push(c);
            i = end;
        }
        match test(&cands) {
            Some(k) => {
                cur = cands.swap_remove(k);
                chunk = chunk.min(cur.len().div_ceil(2).max(1));
            }
            None if chunk == 1 => break,
            None => chunk = chunk.div_ceil(2),
        }
    }
    cur
}

fn confirm_and_minimise(spec: &Spec, seed: u64, rep: &Report, n: usize, budget_s: u64) -> Option<Replay> {
    let (key, detail, at) = rep.viol.clone()?;
    let mut pool = Pool {
        workers: (0..n).map(|i| Worker::start(spec, seed, 100 + i)).collect(),
        deadline: Instant::now() + Duration::from_secs(600),
        tries: 0,
    };
    let full = worker::trace_of(spec, seed, rep.run);
    // The same trace must show the same violation again (twice: exactly, from the seed alone).
    pool.first(&key, &[full.clone()])?;
    pool.first(&key, &[full.clone()])?;
    pool.deadline = Instant::now() + Duration::from_secs(budget_s);
    let mut best = full.clone();
    let hang = key.contains("stuck") || detail.contains("Hang");
    if !hang {
        let mut cut = full.clone();
        cut.ops.truncate(at + 1);
        if pool.first(&key, &[cut.clone()]).is_some() {
            best = cut;
        }
        let ops = ddmin(&best.ops, |cs| {
            let traces: Vec<Trace> = cs.iter().map(|ops| Trace { cfg: best.cfg.clone(), ops: ops.clone() }).collect();
            pool.first(&key, &traces).map(|x| x.0)
        });
        best.ops = ops;
        // Faults, then files on disk.
        for i in 0..best.ops.len() {
            if !best.ops[i].faults.is_empty() {
                let mut c = best.clone();
                c.ops[i].faults.clear();
                if pool.first(&key, &[c.clone()]).is_some() {
                    best = c;
                }
            }
        }
        let disk = ddmin(&best.cfg.disk, |cs| {
            let traces: Vec<Trace> = cs
                .iter()
                .map(|d| {
                    let mut t = best.clone();
                    t.cfg.disk = d.clone();
                    t
                })
                .collect();
            pool.first(&key, &traces).map(|x| x.0)
        });
        best.cfg.disk = disk;
        shrink_texts(&mut pool, &key, &mut best);
    }
    // The replay file holds a history that was executed twice with the same outcome.
    let one = pool.workers[0].run(&Job {
        run: rep.run,
        trace: Some(best.clone()),
        log: true,
    })?;
    let last = pool.workers.len() - 1;
    let two = pool.workers[last].run(&Job {
        run: rep.run,
        trace: Some(best.clone()),
        log: false,
    })?;
    let (v, w) = (one.viol.clone()?, two.viol.clone()?);
    if v.0 != key || w.0 != key || one.hash != two.hash {
        return None;
    }
    Some(Replay {
        property: spec.id.to_owned(),
        violation: v.0,
        detail: v.1,
        seed,
        run: rep.run,
        at: v.2,
        history: format!("{:016x}", one.hash),
        trace: best,
        log: one.log,
    })
}

/// Shrinks document texts line by line. The text an operation sends is taken from the report of a
/// full execution.
fn shrink_texts(pool: &mut Pool, key: &str, best: &mut Trace) {
    let Some(rep) = pool.workers[0].run(&Job {
        run: 0,
        trace: Some(best.clone()),
        log: true,
    }) else {
        return;
    };
    for i in 0..best.ops.len() {
        let Some(text) = best.ops[i].text.clone().or_else(|| rep.texts.get(&i).cloned()) else {
            continue;
        };
        if !matches!(best.ops[i].k, K::Open | K::OpenDup | K::Change | K::ChangeSmall | K::OpenContract | K::OpenVersionProbe | K::ChangeProbe) {
            continue;
        }
        let mut c = best.clone();
        c.ops[i].text = Some(text.clone());
        if pool.first(key, &[c]).is_none() {
            continue;
        }
        let lines: Vec<String> = text.split_inclusive('\n').map(str::to_owned).collect();
        let kept = ddmin(&lines, |cs| {
            let traces: Vec<Trace> = cs
                .iter()
                .map(|ls| {
                    let mut t = best.clone();
                    t.ops[i].text = Some(ls.concat());
                    t
                })
                .collect();
            pool.first(key, &traces).map(|x| x.0)
        });
        best.ops[i].text = Some(kept.concat());
    }
}

/// `inksim replay <file>`.
pub fn replay(file: &Path, specs: &[Spec]) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {e}", file.display());
            return 2;
        }
    };
    let r: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {e}", file.display());
            return 2;
        }
    };
    let Some(spec) = specs.iter().find(|s| s.id == r.property) else {
        eprintln!("unknown property {}", r.property);
        return 2;
    };
    let mut w = Worker::start(spec, r.seed, 0);
    let Some(rep) = w.run(&Job {
        run: r.run,
        trace: Some(r.trace.clone()),
        log: true,
    }) else {
        eprintln!("no answer from the worker");
        return 2;
    };
    for l in &rep.log {
        println!("{}", clip(l, 2000));
    }
    match rep.viol {
        Some((key, detail, at)) => {
            let same = key == r.violation && format!("{:016x}", rep.hash) == r.history;
            println!("operation {at}: {key}: {}", clip(&detail, 4000));
            println!("history {:016x} ({})", rep.hash, if same { "as recorded" } else { "differs from the recorded one" });
            println!("VIOLATION property={} replay={}", r.property, file.display());
            1
        }
        None => {
            println!("no violation (history {:016x})", rep.hash);
            0
        }
    }
}

