//! Renders and loads give back the memory they took.
use super::upset::warm;
use super::{no_stray_panics, Fin};
use crate::alloc::{held, settled};
use crate::core::{take_panics, RunOut};
use crate::files::{self, Model};
use crate::prng::Rng;
use crate::render::*;
use crate::scenes;
use crate::spec::*;
use crate::swarm;
use serde::{Deserialize, Serialize};
use simrt::{IoFault, IoOp, RngMode, SimCfg, Trig};
use solstrale::material::texture::{load_normal_texture, ImageMap};
use solstrale::renderer::Renderer;
use std::path::Path;
use std::sync::mpsc::{channel, TryRecvError};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Way {
    Finish,
    /// After so many random draws.
    Abort(u32),
    Leave(u32),
    Refuse(u32),
    Lightless,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    /// One render of many samples; what it holds is looked at while it runs.
    Long { s: SceneSpec },
    /// The same renders again and again.
    Again { s: SceneSpec, ways: Vec<Way>, together: bool, kept: bool, times: u32 },
    /// The same loads again and again.
    Loads { m: Model, default: Option<Mat>, io: Vec<IoFault>, missing: Option<usize>, direct: bool, rendered: bool, times: u32 },
}

pub const RULE: &str = "Each run counts every allocation and either looks, after each report of one render of 60 to 1500 samples, at the memory held, or repeats the same renders (finished, aborted, abandoned, refused threads, without a light; one after the other or at the same time; with a new or the same Renderer) or the same loads (of sound and missing files, with failing and interrupted reads; also pictures alone; also rendered) 8 to 90 times and compares what is held after each; growth is confirmed over six times as many rounds.";
pub const STUBS: &[&str] = &["heap (every allocation counted)"];
pub const QUICK_RUNS: u64 = 3000;

fn many(r: &mut Rng) -> u32 {
    if r.chance(0.8) { r.int(8, 20) as u32 } else { r.log(20.0, 90.0) as u32 }
}

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = RngMode::Uniform;
    let b = match r.below(10) {
        0..=3 => {
            let mut s = scenes::scene(r, &scenes::Opts { w: 6, h: 6, spp: 8, objs: 3, fog: true, posts: true, depth: 3 });
            super::c01::fix_posts(&mut s);
            s.w = r.int(1, 8) as usize;
            s.h = r.int(1, 8) as usize;
            s.spp = r.log(60.0, 1500.0) as u32;
            while s.w * s.h > 1 && s.w * s.h * s.spp as usize > 2500 {
                if s.w > s.h {
                    s.w /= 2;
                } else {
                    s.h /= 2;
                }
            }
            B::Long { s }
        }
        4..=6 => {
            let mut s = scenes::scene(r, &scenes::Opts { w: 8, h: 8, spp: 4, objs: 5, fog: true, posts: true, depth: 3 });
            super::c01::fix_posts(&mut s);
            if r.chance(0.1) {
                s.w = r.log(8.0, 60.0) as usize;
            }
            s.h = s.h.min(12);
            s.spp = s.spp.min(6);
            let ways = (0..r.int(1, 3))
                .map(|_| match r.below(8) {
                    0 => Way::Abort(r.log(1.0, 1000.0) as u32),
                    1 => Way::Leave(r.log(1.0, 1000.0) as u32),
                    2 => Way::Refuse(r.int(1, 4) as u32),
                    3 => Way::Lightless,
                    _ => Way::Finish,
                })
                .collect();
            B::Again { s, ways, together: r.chance(0.3), kept: r.chance(0.3), times: many(r) }
        }
        _ => {
            let m = files::gen(r);
            let f = m.files();
            let mut io = vec![];
            if r.chance(0.5) {
                for _ in 0..r.int(1, 2) {
                    let op = if r.chance(0.3) { IoOp::Open } else { IoOp::Read };
                    io.push(IoFault { file: r.pick(&f).clone(), op, nth: r.int(1, 4) as u32, count: *r.pick(&[1, 1, 1000]), errno: *r.pick(&[libc::EIO, libc::EACCES, libc::ENOMEM, libc::EINTR, 0]) });
                }
            }
            let missing = if r.chance(0.2) { Some(r.below(f.len() as u64) as usize) } else { None };
            let default = if r.chance(0.5) { Some(scenes::mat(r, 1)) } else { None };
            B::Loads { m, default, io, missing, direct: r.chance(0.5), rendered: r.chance(0.3), times: many(r) }
        }
    };
    (sim, swarm::threads(r), b)
}

/// Rounds of the same, and what is held after each.  What is kept once is no
/// matter, nor is what fills up slowly: only growth that goes on and on.
fn rounds(what: &str, times: u32, out: &mut RunOut, mut one: impl FnMut(&mut RunOut) -> bool) {
    let mut top = i64::MIN;
    let mut grown = Vec::with_capacity(6);
    out.probe("rounds", 0);
    for part in 0..6 {
        let mut seen = Vec::with_capacity(times as usize);
        for _ in 0..times {
            if !one(out) {
                return;
            }
            simrt::wait_idle();
            seen.push(settled());
        }
        out.probe("rounds", times as u64);
        let half = seen.len() / 2;
        if part == 0 {
            top = *seen[..half].iter().max().unwrap();
        }
        let end = *seen[half..].iter().min().unwrap();
        if end <= top {
            out.probe("checked", 1);
            if part > 0 {
                out.probe("slowly_filled", 1);
            }
            return;
        }
        grown.push(end - top);
        top = *seen.iter().max().unwrap();
    }
    out.probe("checked", 1);
    out.fail("memory-kept", format!("{what}: after every {times} rounds of the same more memory is held than ever before: {grown:?} bytes"));
}

fn no_light(o: &[Obj]) -> Vec<Obj> {
    o.iter().filter(|o| !o.has_light()).cloned().collect()
}

fn long(s: &SceneSpec, threads: u32, out: &mut RunOut) {
    let scene = s.real();
    let (tx, rx) = channel();
    let (keep, abort) = channel::<bool>();
    let n = s.spp as usize;
    let mut seen: Vec<(usize, i64)> = Vec::with_capacity(n + 1);
    let h = simrt::exempt(|| std::thread::spawn(move || solstrale::ray_trace(scene, &tx, &abort).map_err(|e| e.to_string())));
    let mut got = 0;
    'all: while rx.recv().is_ok() {
        got += 1;
        // what waits in the channel is nobody's fault
        for _ in 0..100 {
            let now = held();
            match rx.try_recv() {
                Ok(_) => got += 1,
                Err(TryRecvError::Empty) => {
                    seen.push((got, now));
                    break;
                }
                Err(_) => break 'all,
            }
        }
    }
    drop(keep);
    match h.join() {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return out.fail("render-error", format!("the render returned an error: {e}")),
        Err(_) => return out.fail("panic", format!("the render panicked: {}", take_panics().join(" | "))),
    }
    if got != n {
        return out.fail("report-count", format!("{got} reports for {n} samples"));
    }
    let early: Vec<i64> = seen.iter().filter(|x| x.0 >= 2 && x.0 <= n / 3).map(|x| x.1).collect();
    let late: Vec<i64> = seen.iter().filter(|x| x.0 > n * 2 / 3 && x.0 < n).map(|x| x.1).collect();
    let (Some(a), Some(b)) = (early.iter().max(), late.iter().min()) else {
        out.probe("looks_missing", 1);
        return;
    };
    out.probe("checked", 1);
    out.probe("looks", seen.len() as u64);
    let slack = 1024 + threads as i64 * (256 + s.w as i64 * 96);
    if b - a > slack {
        out.fail("memory-grows", format!("at least {b} bytes are held in the last third of {n} samples of {}x{} pixels, at most {a} in the first", s.w, s.h));
    }
}

fn again(s: &SceneSpec, ways: &[Way], together: bool, kept: bool, times: u32, out: &mut RunOut) {
    let shared = if kept { Renderer::new(s.real()).ok().map(Arc::new) } else { None };
    rounds("renders", times, out, |out| {
        for group in ways.chunks(if together { ways.len() } else { 1 }) {
            let mut jobs = vec![];
            let base = mark();
            for w in group {
                let target = match (&shared, w) {
                    (_, Way::Lightless) => Target::Scene(Box::new(SceneSpec { objs: no_light(&s.objs), ..s.clone() }.real())),
                    (Some(r), _) => Target::Renderer(r.clone()),
                    _ => Target::Scene(Box::new(s.real())),
                };
                let mut j = Job { target, abort: AbortPlan::Never, recv: RecvPlan::Drain };
                match w {
                    Way::Abort(n) => j.abort = AbortPlan::At(Trig::Draw(base.draws + *n as u64), true),
                    Way::Leave(n) => j.recv = RecvPlan::DropAt(Trig::Draw(base.draws + *n as u64)),
                    Way::Refuse(k) => simrt::set_spawn_fail(vec![simrt::spawns() + k]),
                    _ => {}
                }
                jobs.push(j);
            }
            for o in run_jobs(jobs) {
                match o.end {
                    End::Panic(p) => {
                        out.fail("panic", format!("a render panicked: {p}"));
                        return false;
                    }
                    End::Hung => {
                        out.fail("hang", "a render never returned");
                        return false;
                    }
                    _ => {}
                }
            }
            simrt::set_spawn_fail(vec![]);
        }
        true
    });
}

#[allow(clippy::too_many_arguments)]
fn loads(m: &Model, default: &Option<Mat>, io: &[IoFault], direct: bool, rendered: bool, short: u32, times: u32, dir: &Path, out: &mut RunOut) {
    rounds("loads", times, out, |out| {
        simrt::set_io(io.to_vec(), short);
        let r = std::panic::catch_unwind(|| {
            if direct {
                for p in &m.pictures {
                    let path = dir.join(&p.file).display().to_string();
                    let _ = ImageMap::load(&path);
                    let _ = load_normal_texture(&path);
                }
            }
            files::load(dir, default, &[])
        });
        match r {
            Err(_) => {
                out.fail("panic", format!("loading panicked: {}", take_panics().join(" | ")));
                return false;
            }
            Ok(Ok(world)) if rendered => {
                let lamp = Obj::Sphere { c: [0.0, 40.0, 0.0], r: 1.0, mat: Mat::Light { rgb: [1.0; 3], half: None } };
                let s = SceneSpec { objs: vec![], cam: crate::tiles::simple_cam(), bg: [0.5; 3], w: 2, h: 2, spp: 1, shader: Sh::Path(2), posts: vec![], strat: Strat::Final };
                let mut all = lamp.real();
                all.push(world);
                let o = run_one(Job { target: Target::Scene(Box::new(s.with_world(solstrale::hittable::Bvh::new(all)))), abort: AbortPlan::Never, recv: RecvPlan::Drain });
                if !super::must_be_ok(out, "a render of a loaded model", &o.end) {
                    return false;
                }
            }
            _ => {}
        }
        true
    });
}

pub fn exec(b: &B, mut sim: SimCfg, out: &mut RunOut, fin: Fin) {
    let sim_threads = sim.cores;
    match b {
        B::Long { s } => {
            simrt::start(sim, fin);
            warm();
            long(s, sim_threads, out);
        }
        B::Again { s, ways, together, kept, times } => {
            simrt::start(sim, fin);
            warm();
            again(s, ways, *together, *kept, *times, out);
        }
        B::Loads { m, default, io, missing, direct, rendered, times } => {
            let dir = files::dir();
            m.write(&dir);
            if let Some(k) = missing {
                let _ = std::fs::remove_file(dir.join(&m.files()[*k]));
            }
            sim.io_prefix = dir.display().to_string();
            let short = sim.short_read;
            simrt::start(sim, fin);
            warm();
            loads(m, default, io, *direct, *rendered, short, *times, &dir, out);
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
    no_stray_panics(out);
}

pub fn shrink(b: &B) -> Vec<B> {
    let mut v = vec![];
    match b {
        B::Long { s } => v.extend(scenes::shrink(s).into_iter().filter(|s| s.has_light()).map(|s| B::Long { s })),
        B::Again { s, ways, together, kept, times } => {
            let mk = |s: &SceneSpec, ways: &[Way], together: bool, kept: bool, times: u32| B::Again { s: s.clone(), ways: ways.to_vec(), together, kept, times };
            for i in 0..ways.len() {
                if ways.len() > 1 {
                    let mut w = ways.clone();
                    w.remove(i);
                    v.push(mk(s, &w, *together, *kept, *times));
                }
            }
            if *together {
                v.push(mk(s, ways, false, *kept, *times));
            }
            if *kept {
                v.push(mk(s, ways, *together, false, *times));
            }
            v.extend(scenes::shrink(s).iter().filter(|s| s.has_light()).map(|s| mk(s, ways, *together, *kept, *times)));
        }
        B::Loads { m, default, io, missing, direct, rendered, times } => {
            let mk = |m: &Model, io: &[IoFault], missing: Option<usize>, direct: bool, rendered: bool| B::Loads { m: m.clone(), default: default.clone(), io: io.to_vec(), missing, direct, rendered, times: *times };
            for i in 0..io.len() {
                let mut f = io.clone();
                f.remove(i);
                v.push(mk(m, &f, *missing, *direct, *rendered));
            }
            if missing.is_some() {
                v.push(mk(m, io, None, *direct, *rendered));
            }
            if *direct {
                v.push(mk(m, io, *missing, false, *rendered));
            }
            if *rendered {
                v.push(mk(m, io, *missing, *direct, false));
            }
            v.extend(files::shrink(m).iter().map(|m| mk(m, io, if m.files().len() > missing.unwrap_or(0) { *missing } else { None }, *direct, *rendered)));
        }
    }
    v
}
