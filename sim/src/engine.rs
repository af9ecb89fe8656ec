//! Explores many plans in parallel worker processes, stops at the first
//! violation, minimises it, writes the replay file and the evidence.
use crate::core::{run_plan, Plan, RunOut};
use crate::evidence::Agg;
use crate::{minimise, props};
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub struct Opt {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub runs: Option<u64>,
    pub secs: Option<f64>,
    pub workers: u64,
    pub root: PathBuf,
    pub keep_going: bool,
    pub hashes: Option<String>,
    pub no_min: bool,
}

#[derive(Serialize, Deserialize)]
struct Line {
    i: u64,
    out: RunOut,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub index: u64,
    pub hash: u64,
    pub plan: Plan,
}

/// A committed list of genuine defects that are recorded instead of repaired.
pub struct Known {
    prop: String,
    class: String,
    needle: String,
    text: String,
}

fn known(root: &PathBuf) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in t.lines() {
            // known: property=<id> class=<class> match=<substring of the detail> :: <text>
            if let Some(r) = l.strip_prefix("known: ") {
                let (head, text) = r.split_once(" :: ").unwrap_or((r, ""));
                let get = |k: &str| head.split(' ').find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
                v.push(Known { prop: get("property="), class: get("class="), needle: get("match="), text: text.to_string() });
            }
        }
    }
    v
}

fn is_known(k: &[Known], prop: &str, class: &str, detail: &str) -> Option<usize> {
    k.iter().position(|k| k.prop == prop && k.class == class && !k.needle.is_empty() && detail.contains(&k.needle))
}

pub fn run(opt: &Opt) -> i32 {
    let t0 = Instant::now();
    let (def_runs, def_secs) = props::budget(&opt.prop, &opt.tier);
    let runs = opt.runs.unwrap_or(def_runs);
    let secs = opt.secs.unwrap_or(def_secs);
    let _ = std::fs::create_dir_all(opt.root.join("evidence"));
    let _ = std::fs::create_dir_all(opt.root.join("replays"));
    let stop: &AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &*(p as *const AtomicU64)
    };
    stop.store(u64::MAX, Ordering::SeqCst);
    let scratch = format!("{}/simcheck.{}.{}", if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" }, unsafe { libc::getuid() }, std::process::id());
    let mut fds = vec![];
    let mut pids = vec![];
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1) as u64;
    for w in 0..opt.workers {
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(p[0]);
                for f in &fds {
                    libc::close(*f);
                }
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET((w % ncpu) as usize, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
                std::env::set_var("SIM_SCRATCH", format!("{scratch}.w{w}"));
                let mut f = std::fs::File::from_raw_fd(p[1]);
                let mut i = w;
                while i < runs && t0.elapsed().as_secs_f64() < secs {
                    if i > stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let plan = props::plan(&opt.prop, opt.seed, i, &opt.tier);
                    let out = run_plan(&plan);
                    if (!out.viol.is_empty()) && !opt.keep_going {
                        stop.fetch_min(i, Ordering::SeqCst);
                    }
                    let mut js = serde_json::to_vec(&Line { i, out }).unwrap();
                    js.push(b'\n');
                    if f.write_all(&js).is_err() {
                        break;
                    }
                    i += opt.workers;
                }
                let _ = std::fs::remove_dir_all(format!("{scratch}.w{w}"));
                libc::_exit(0);
            }
            libc::close(p[1]);
            fds.push(p[0]);
            pids.push(pid);
        }
    }
    // Collect.
    let mut agg = Agg::new(opt, runs);
    let mut bufs: Vec<Vec<u8>> = vec![vec![]; fds.len()];
    let mut open: Vec<bool> = vec![true; fds.len()];
    let mut viols: Vec<(u64, RunOut)> = vec![];
    let mut harness: Vec<(u64, String)> = vec![];
    let mut hashes: Vec<(u64, u64, u64)> = vec![];
    let mut chunk = vec![0u8; 1 << 20];
    while open.iter().any(|&o| o) {
        let mut p: Vec<libc::pollfd> = (0..fds.len()).map(|i| libc::pollfd { fd: if open[i] { fds[i] } else { -1 }, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(p.as_mut_ptr(), p.len() as u64, -1) };
        for i in 0..fds.len() {
            if !open[i] || p[i].revents == 0 {
                continue;
            }
            let n = unsafe { libc::read(fds[i], chunk.as_mut_ptr() as *mut _, chunk.len()) };
            if n <= 0 {
                open[i] = false;
                continue;
            }
            bufs[i].extend_from_slice(&chunk[..n as usize]);
            while let Some(k) = bufs[i].iter().position(|&b| b == b'\n') {
                let line: Vec<u8> = bufs[i].drain(..=k).collect();
                if let Ok(l) = serde_json::from_slice::<Line>(&line) {
                    agg.add(l.i, &l.out);
                    hashes.push((l.i, l.out.hash, l.out.sched_hash));
                    if let Some(e) = &l.out.harness_error {
                        harness.push((l.i, e.clone()));
                    }
                    if !l.out.viol.is_empty() {
                        viols.push((l.i, l.out));
                    }
                }
            }
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    if let Some(h) = &opt.hashes {
        hashes.sort();
        let t: String = hashes.iter().map(|(i, a, b)| format!("{i} {a:016x} {b:016x}\n")).collect();
        std::fs::write(h, t).unwrap();
    }
    agg.explore_s = t0.elapsed().as_secs_f64();
    std::env::set_var("SIM_SCRATCH", format!("{scratch}.p"));
    viols.sort_by_key(|v| v.0);
    if opt.keep_going {
        let mut by: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
        for (i, o) in &viols {
            let e = by.entry(o.viol[0].class.clone()).or_insert((0, *i, o.viol[0].detail.clone()));
            e.0 += 1;
        }
        for (c, (n, i, d)) in &by {
            println!("class {c}: {n} runs, first index {i}: {d}");
        }
    }
    let kn = known(&opt.root);
    let mut seen = vec![false; kn.len()];
    let mut code = 0;
    let mut reported = 0;
    for (i, o) in &viols {
        let v = &o.viol[0];
        if let Some(k) = is_known(&kn, &opt.prop, &v.class, &v.detail) {
            seen[k] = true;
            continue;
        }
        if code != 0 {
            continue;
        }
        code = 1;
        reported = 1;
        let mut plan = props::plan(&opt.prop, opt.seed, *i, &opt.tier);
        let (plan2, out2) = if opt.no_min { (plan.clone(), o.clone()) } else { minimise::minimise(&mut plan, o, if opt.tier == "thorough" { 180.0 } else { 45.0 }) };
        let v = out2.viol.first().cloned().unwrap_or_else(|| v.clone());
        let rp = Replay { property: opt.prop.clone(), class: v.class.clone(), detail: v.detail.clone(), seed: opt.seed, index: *i, hash: out2.hash, plan: plan2 };
        let path = opt.root.join("replays").join(format!("{}-{}-{}.json", opt.prop, opt.seed, i));
        std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).expect("replay file");
        // The replay must reproduce the same execution in a fresh process.
        let again = run_plan(&rp.plan);
        let same = again.class() == Some(rp.class.as_str()) && (again.hash == rp.hash);
        println!("violated: {} ({})", v.detail, v.class);
        println!("seed={} index={} threads={} policy={:?} decisions={} replay reproduces exactly: {}", opt.seed, i, rp.plan.threads, rp.plan.sim.policy, rp.plan.sim.schedule.as_ref().map_or(0, |s| s.len()), same);
        println!("VIOLATION property={} replay={}", opt.prop, path.display());
    }
    for (k, e) in kn.iter().enumerate() {
        if e.prop == opt.prop {
            println!("KNOWN-FINDING: property={} {}{}", e.prop, e.text, if seen[k] { "" } else { " (not met in this run)" });
        }
    }
    let _ = std::fs::remove_dir_all(format!("{scratch}.p"));
    for (i, e) in harness.iter().take(3) {
        eprintln!("harness problem in run {i}: {e}");
    }
    agg.harness = harness.len() as u64;
    agg.write(opt, reported, t0.elapsed().as_secs_f64());
    println!("{}", agg.summary());
    if agg.runs == 0 || (harness.len() as u64) * 2 > agg.runs {
        eprintln!("no usable runs");
        return if code == 1 { 1 } else { 3 };
    }
    code
}

pub fn replay(path: &str, verbose: bool) -> i32 {
    let t = std::fs::read_to_string(path).expect("read replay file");
    let r: Replay = serde_json::from_str(&t).expect("parse replay file");
    std::env::set_var("SIM_SCRATCH", format!("/tmp/simcheck.replay.{}", std::process::id()));
    let out = run_plan(&r.plan);
    let _ = std::fs::remove_dir_all(std::env::var("SIM_SCRATCH").unwrap());
    if verbose {
        println!("{}", serde_json::to_string_pretty(&r.plan).unwrap());
    }
    for v in &out.viol {
        println!("violated: {} ({})", v.detail, v.class);
    }
    println!("event hash {:016x}, recorded {:016x}: {}", out.hash, r.hash, if out.hash == r.hash { "same execution" } else { "different execution" });
    if out.class() == Some(r.class.as_str()) {
        println!("VIOLATION property={} replay={}", r.property, path);
        1
    } else {
        println!("not reproduced (expected {})", r.class);
        0
    }
}
