//! A worker process: executes jobs (a run number, or an explicit trace) one at a time, each in a
//! process forked for it, so that no run sees anything an earlier run left behind and a run that
//! takes the process down (stack overflow, abort, runaway memory) costs only itself.

use std::collections::BTreeMap;
use std::fs::File;
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use std::path::Path;
use std::sync::atomic::{AtomicPtr, Ordering};

use serde::{Deserialize, Serialize};

use crate::engine;
use crate::props::{Cov, Spec, Viol};
use crate::world::{Step, Trace};
use crate::{fresh, gen, profile, seam, srv};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Job {
    pub run: u64,
    pub trace: Option<Trace>,
    #[serde(default)]
    pub log: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub run: u64,
    /// Violation: key, detail, index of the operation.
    pub viol: Option<(String, String, usize)>,
    pub hash: u64,
    pub steps: u64,
    pub faults: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub sim_ns: i64,
    pub evaluations: u64,
    pub distinct: Vec<u64>,
    pub samples: Vec<String>,
    pub log: Vec<String>,
    /// Documents sent, by operation (with `log`).
    #[serde(default)]
    pub texts: BTreeMap<usize, String>,
    /// The run ended in a way that is not this property's business.
    pub cut_short: Option<String>,
}

/// What the run in the forked process is doing, readable by its parent after it died.
const BLACKBOX: usize = 4 << 20;
static BOX: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

pub fn open_blackbox() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            BLACKBOX,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if p != libc::MAP_FAILED {
            BOX.store(p.cast(), Ordering::SeqCst);
        }
    }
}

/// Records the message about to be handed to the server.
pub fn record(op: usize, input: &lsp_server::Message) {
    let p = BOX.load(Ordering::SeqCst);
    if p.is_null() {
        return;
    }
    let bytes = serde_json::to_vec(&(op, input)).unwrap_or_default();
    if bytes.len() + 8 > BLACKBOX {
        return;
    }
    unsafe {
        p.cast::<u64>().write_unaligned(bytes.len() as u64);
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), p.add(8), bytes.len());
    }
}

fn last_recorded() -> Option<(usize, lsp_server::Message)> {
    let p = BOX.load(Ordering::SeqCst);
    if p.is_null() {
        return None;
    }
    unsafe {
        let n = p.cast::<u64>().read_unaligned() as usize;
        if n == 0 || n + 8 > BLACKBOX {
            return None;
        }
        serde_json::from_slice(std::slice::from_raw_parts(p.add(8), n)).ok()
    }
}

fn clear_box() {
    let p = BOX.load(Ordering::SeqCst);
    if !p.is_null() {
        unsafe { p.cast::<u64>().write_unaligned(0) };
    }
}

/// Sets a process up for simulated runs.
pub fn set_up(scratch: &Path) {
    seam::exempt_current_thread();
    fresh::start_zygote();
    std::fs::create_dir_all(scratch).expect("scratch");
    for l in [gen::Lang::V4, gen::Lang::V5] {
        let v = if l == gen::Lang::V4 { "4.3.0" } else { "5.0.0" };
        std::fs::write(seam::forced_path(scratch, l), format!("[dependencies]\nink = \"{v}\"\n")).expect("scratch");
    }
    srv::install_panic_hook();
    if let Err(e) = seam::self_test(scratch) {
        eprintln!("seam self-test failed: {e}");
        std::process::exit(2);
    }
    open_blackbox();
}

fn in_process(spec: &Spec, seed: u64, job: &Job, scratch: &Path) -> Report {
    let trace = job.trace.clone().unwrap_or_else(|| profile::trace(seed, job.run, &(spec.profile)()));
    let mut cov = Cov::default();
    let o = engine::run(spec, &trace, scratch, job.log, &mut cov);
    Report {
        run: job.run,
        viol: o.viol.map(|(v, i)| (v.key, v.detail, i)),
        hash: o.hash,
        steps: o.steps,
        faults: o.fault_counts,
        ops: o.op_counts,
        sim_ns: o.sim_ns,
        evaluations: cov.evaluations,
        distinct: cov.distinct.into_iter().collect(),
        samples: cov.samples,
        log: o.log,
        texts: o.texts,
        cut_short: o.dead,
    }
}

/// Runs one job in a forked process.
pub fn execute(spec: &Spec, seed: u64, job: &Job, scratch: &Path) -> Report {
    clear_box();
    unsafe {
        let mut p = [0; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(p[0]);
            // Nothing a run does takes minutes.
            libc::alarm(240);
            let lim = libc::rlimit {
                rlim_cur: 4 << 30,
                rlim_max: 4 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let none = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            let rep = in_process(spec, seed, job, scratch);
            let mut f = File::from_raw_fd(p[1]);
            let _ = f.write_all(&serde_json::to_vec(&rep).unwrap_or_default());
            drop(f);
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut buf = vec![];
        let _ = File::from_raw_fd(p[0]).read_to_end(&mut buf);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if let Ok(rep) = serde_json::from_slice::<Report>(&buf) {
            return rep;
        }
        // The process died under the run.
        let how = if libc::WIFSIGNALED(status) {
            match libc::WTERMSIG(status) {
                libc::SIGALRM => "stuck".to_owned(),
                n => format!("killed by signal {n}"),
            }
        } else {
            format!("exited with status {}", libc::WEXITSTATUS(status))
        };
        let mut rep = Report {
            run: job.run,
            cut_short: Some(how.clone()),
            ..Report::default()
        };
        if let Some((op, input)) = last_recorded() {
            let step = Step::of_input(op, input);
            if (spec.monitor)().judges(&step) {
                let v = Viol {
                    key: format!("server process {how}"),
                    detail: format!("while handling {}", crate::props::show(&step.input)),
                };
                rep.viol = Some((v.key, v.detail, op));
            }
        }
        rep
    }
}

/// `inksim worker <property> <seed> <scratch>`: jobs in, reports out, one JSON document per line.
pub fn serve(spec: &Spec, seed: u64, scratch: &Path) {
    set_up(scratch);
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else {
            break;
        };
        let Ok(job) = serde_json::from_str::<Job>(&line) else {
            break;
        };
        let rep = execute(spec, seed, &job, scratch);
        let mut o = stdout.lock();
        if writeln!(o, "{}", serde_json::to_string(&rep).expect("report")).and_then(|()| o.flush()).is_err() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(scratch);
}

pub fn trace_of(spec: &Spec, seed: u64, run: u64) -> Trace {
    profile::trace(seed, run, &(spec.profile)())
}

