//! Plans, simulated runs in forked children, and what comes back from them.
use serde::{Deserialize, Serialize};
use simrt::{Counts, Outcome, SimCfg};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;

use crate::props::Body;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub sim: SimCfg,
    /// Threads of the rendering pools (RAYON_NUM_THREADS).
    pub threads: u32,
    pub body: Body,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    /// Stable class of the failure; minimisation keeps it.
    pub class: String,
    pub detail: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RunOut {
    pub viol: Vec<Violation>,
    pub hash: u64,
    pub sched_hash: u64,
    pub edges: u64,
    pub draws: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub sim_ns: u64,
    pub counts: Counts,
    pub probes: BTreeMap<String, u64>,
    pub decisions: Vec<(u32, u32)>,
    pub guards: Vec<u16>,
    pub nguards: u32,
    pub harness_error: Option<String>,
}

impl RunOut {
    pub fn fail(&mut self, class: &str, detail: impl Into<String>) {
        if self.viol.len() < 20 {
            self.viol.push(Violation { class: class.to_string(), detail: detail.into() });
        }
    }
    pub fn probe(&mut self, k: &str, n: u64) {
        *self.probes.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn class(&self) -> Option<&str> {
        self.viol.first().map(|v| v.class.as_str())
    }
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static mut RESULT_FD: i32 = -1;

/// Panic messages recorded so far (and forgotten).
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}

fn fill(out: &mut RunOut) {
    let r = simrt::report();
    out.hash = r.hash;
    out.sched_hash = r.sched_hash;
    out.edges = r.edges;
    out.draws = r.draws;
    out.switches = r.switches;
    out.preemptions = r.preemptions;
    out.sim_ns = r.sim_ns;
    out.counts = r.counts.clone();
    let (n, hits) = simrt::guards_hit();
    out.nguards = n;
    out.guards = hits;
    if !out.viol.is_empty() {
        out.decisions = r.decisions.to_vec();
    }
}

unsafe fn send(out: &RunOut) -> ! {
    let js = serde_json::to_vec(out).unwrap();
    let mut f = std::fs::File::from_raw_fd(RESULT_FD);
    let _ = f.write_all(&js);
    std::mem::forget(f);
    libc::_exit(0)
}

fn on_finish(o: Outcome) -> ! {
    let mut out = RunOut::default();
    match o {
        Outcome::Deadlock => out.fail("deadlock", "no thread can ever run again"),
        Outcome::Stuck => out.fail("no-progress", "step budget used up without reaching the end"),
    }
    fill(&mut out);
    unsafe { send(&out) }
}

/// Execute the plan in this (child) process; never returns.
unsafe fn child(plan: &Plan, fd: i32) -> ! {
    RESULT_FD = fd;
    let lim = libc::rlimit { rlim_cur: 45, rlim_max: 50 };
    libc::setrlimit(libc::RLIMIT_CPU, &lim);
    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &core);
    // One processor: handing the baton over is cheapest there.
    let cpu = libc::sched_getcpu();
    let mut set: libc::cpu_set_t = std::mem::zeroed();
    libc::CPU_SET(cpu.max(0) as usize, &mut set);
    libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    std::env::set_var("RAYON_NUM_THREADS", plan.threads.to_string());
    std::env::remove_var("RUST_BACKTRACE");
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANICS.lock().unwrap().push(format!("{msg} @ {loc}"));
    }));
    // The model reader's hash maps are seeded by an address otherwise.
    let _ = ahash::random_state::set_random_source(Seeds(Default::default()));
    let mut sim = plan.sim.clone();
    sim.cores = plan.threads;
    let mut out = RunOut::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::props::exec(plan, sim, &mut out, on_finish)));
    simrt::stop();
    if r.is_err() {
        let p = take_panics();
        out.harness_error = Some(format!("harness panic: {}", p.join(" | ")));
    }
    fill(&mut out);
    send(&out)
}

struct Seeds(std::sync::atomic::AtomicUsize);

impl ahash::random_state::RandomSource for Seeds {
    fn gen_hasher_seed(&self) -> usize {
        self.0.fetch_add(0x5851_f42d, std::sync::atomic::Ordering::Relaxed)
    }
}

fn gone(_: Outcome) -> ! {
    unsafe { libc::_exit(0) }
}

/// Runs `f` in a process of its own, under its own simulation: nothing it
/// leaves behind in the process can influence the caller.  To be called before
/// the caller's simulation starts.  None if it never came to its end.
pub fn isolated<T: Serialize + serde::de::DeserializeOwned>(sim: SimCfg, f: impl FnOnce() -> T) -> Option<T> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            simrt::start(sim, gone);
            let x = f();
            simrt::stop();
            let js = serde_json::to_vec(&x).unwrap();
            let mut o = std::fs::File::from_raw_fd(fds[1]);
            let _ = o.write_all(&js);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = Vec::new();
        let mut i = std::fs::File::from_raw_fd(fds[0]);
        let _ = i.read_to_end(&mut buf);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        serde_json::from_slice(&buf).ok()
    }
}

/// Run the plan in a fresh child process.
pub fn run_plan(plan: &Plan) -> RunOut {
    // A whole machine that stalls for minutes is not the code's doing: one more try.
    attempt(plan).unwrap_or_else(|| {
        attempt(plan).unwrap_or_else(|| {
            let mut o = RunOut::default();
            o.fail("hang", "the process stopped making progress");
            o
        })
    })
}

/// None: no answer for minutes.
fn attempt(plan: &Plan) -> Option<RunOut> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let scratch = crate::scratch_dir();
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            child(plan, fds[1]);
        }
        libc::close(fds[1]);
        let mut buf = Vec::new();
        let mut killed = false;
        // Wall-clock guard only against a wedged harness; the run itself is bounded in steps and CPU time.
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut chunk = [0u8; 65536];
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, 200_000);
            if r == 0 {
                killed = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            match f.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let _ = scratch;
        if killed {
            return None;
        }
        Some(match serde_json::from_slice::<RunOut>(&buf) {
            Ok(o) => o,
            Err(_) => {
                let mut o = RunOut::default();
                if libc::WIFSIGNALED(st) {
                    let sig = libc::WTERMSIG(st);
                    if sig == libc::SIGXCPU {
                        o.fail("hang", "the process spun until its CPU limit");
                    } else {
                        o.fail(&format!("crash-signal-{sig}"), format!("the process died with signal {sig}"));
                    }
                } else if libc::WEXITSTATUS(st) != 0 {
                    o.fail("process-exit", format!("the process ended with status {}", libc::WEXITSTATUS(st)));
                } else {
                    o.harness_error = Some("no result from the child".into());
                }
                o
            }
        })
    }
}

