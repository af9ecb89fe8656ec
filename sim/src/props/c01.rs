//! Every sample of every pixel is accumulated exactly once, at its own place,
//! whatever the schedule and the number of threads.
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::RunOut;
use crate::prng::Rng;
use crate::render::*;
use crate::scenes;
use crate::spec::*;
use crate::swarm;
use crate::tiles::Tiles;
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    /// Decodable image.
    Tiles { t: Tiles, prewarm: bool },
    /// Any scene, all random values equal: the image may not depend on the schedule.
    Same { s: SceneSpec, threads: Vec<u32> },
}

pub const RULE: &str = "Half the runs render a scene of one emissive tile per half pixel footprint and decode every reported image (which pixel, how many of k samples, in which part of it; the parts have to be hit as often as their size says); the others render a random scene two or three times with different thread counts under the same random values and compare all images byte for byte.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 16000;

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    let threads = swarm::threads(r);
    if r.chance(0.6) {
        let mut t = Tiles::gen(r, 9, 9, 9);
        if r.chance(0.5) {
            t.strat = match r.below(3) {
                0 => Strat::Final,
                _ => Strat::Interval(r.log(1.0, 1e7) as u64),
            };
        }
        if r.chance(0.06) {
            t.w = 2;
            t.h = r.int(1, 3) as usize;
            t.spp = r.int(20, 200) as u32;
        }
        if r.chance(0.01) {
            // many samples, to see where in the pixel they fall
            t.w = r.int(8, 40) as usize;
            t.h = r.int(8, 24) as usize;
            t.spp = r.int(2, 5) as u32;
            t.cut = *r.pick(&[0.03, 0.1, 0.2, 0.8, 0.9, 0.97]);
        }
        if r.chance(0.006) {
            // enough samples to compare them row by row
            t.w = r.int(8, 16) as usize;
            t.h = if r.chance(0.5) { r.int(3, 20) } else { r.int(60, 140) } as usize;
            t.spp = r.int(8, 14) as u32;
            t.cut = 0.5;
            t.strat = Strat::Every;
        }
        let mut coop = false;
        if r.chance(0.003) {
            // as long and as wide as it gets
            let w = r.log(200.0, 1100.0);
            let h = r.log(1.0, 2000.0 / w);
            (t.w, t.h) = if r.chance(0.5) { (w as usize, h as usize) } else { (h as usize, w as usize) };
            t.spp = r.int(1, 2) as u32;
        } else if r.chance(0.0004) {
            // more samples than fit 16 bits
            (t.w, t.h) = (1, 1);
            t.spp = r.int(65_537, 66_500) as u32;
            t.strat = Strat::Final;
            coop = true;
        }
        if coop {
            sim.policy = simrt::Policy::Coop;
        }
        if t.w * t.h > 1000 {
            sim.max_edges = 1_000_000_000;
        }
        t.code0 = r.below(10000) as usize;
        (sim, threads, B::Tiles { t, prewarm: r.chance(0.3) })
    } else {
        let mut c = r.range(0.22, 0.78);
        if (c - 0.5f64).abs() < 0.01 {
            c = 0.41;
        }
        sim.rng = RngMode::Const { c };
        let mut s = scenes::scene(r, &scenes::Opts { w: 7, h: 7, spp: 6, objs: 6, fog: true, posts: true, depth: 6 });
        if r.chance(0.004) {
            s.w = r.log(8.0, 120.0) as usize;
            s.h = r.log(8.0, 120.0) as usize;
            s.spp = 1;
        }
        s.strat = if r.chance(0.7) { Strat::Every } else { Strat::Final };
        fix_posts(&mut s);
        let n = r.int(2, 3);
        let th = (0..n).map(|_| swarm::threads(r)).collect();
        (sim, threads, B::Same { s, threads: th })
    }
}

/// In a build with the denoiser it may only be the last post processor.
pub fn fix_posts(s: &mut SceneSpec) {
    let n = s.posts.len();
    for (i, p) in s.posts.iter_mut().enumerate() {
        if cfg!(feature = "oidn") && i + 1 < n && *p == Post::Oidn {
            *p = Post::Nop;
        }
    }
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    match b {
        B::Tiles { t, prewarm } => {
            if *prewarm {
                rayon::join(|| (), || ());
            }
            let o = run_one(Job { target: Target::Scene(Box::new(t.scene().real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
            if must_be_ok(out, "the render", &o.end) {
                match t.check(&o.reports) {
                    Err(e) => out.fail("image", e),
                    Ok((n, lo, hi, total)) => {
                        out.probe("checked", n);
                        out.probe("tile_images", n);
                        out.probe("tile_samples", total);
                        if n == 0 {
                            out.fail("no-image", "no image was reported");
                        }
                        // Bernstein bound on the samples in the second part, error below 1e-12
                        let (nn, q) = (total as f64, 1.0 - t.cut);
                        let l = 28.4;
                        let dev = (2.0 * nn * q * (1.0 - q) * l).sqrt() + l / 3.0 + nn * 4e-4;
                        if (lo as f64) > nn * q + dev || (hi as f64) < nn * q - dev {
                            out.fail("jitter", format!("{lo} to {hi} of {total} samples fell in a part that is {q} of their pixel"));
                        }
                        if dev < nn * q.min(1.0 - q) {
                            out.probe("position_spread_judged", 1);
                        }
                        match t.independent(&o.reports) {
                            Err(e) => out.fail("jitter-repeats", e),
                            Ok(n) => out.probe("independence_judged", n),
                        }
                    }
                }
            }
        }
        B::Same { s, threads } => {
            let mut first: Option<(u32, Vec<Option<Img>>)> = None;
            for &th in threads {
                std::env::set_var("RAYON_NUM_THREADS", th.to_string());
                let o = run_one(Job { target: Target::Scene(Box::new(s.real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
                if !must_be_ok(out, "the render", &o.end) {
                    break;
                }
                let imgs: Vec<Option<Img>> = o.reports.into_iter().map(|r| r.img).collect();
                match &first {
                    None => first = Some((th, imgs)),
                    Some((th0, f)) => {
                        out.probe("checked", 1);
                        out.probe("same_images", f.iter().flatten().count() as u64);
                        if f.len() != imgs.len() {
                            out.fail("schedule-dependent", format!("{} reports, then {}", f.len(), imgs.len()));
                        }
                        for (k, (a, b)) in f.iter().zip(&imgs).enumerate() {
                            if a != b {
                                let w = match (a, b) {
                                    (Some(a), Some(b)) => {
                                        let i = a.px.iter().zip(&b.px).position(|(x, y)| x != y).unwrap_or(0);
                                        format!("image after {} samples differs between runs with {th0} and {th} threads, first at pixel ({},{}) channel {}: {} and {}", k + 1, i / 3 % a.w as usize, i / 3 / a.w as usize, i % 3, a.px[i], b.px[i])
                                    }
                                    _ => format!("report {} has an image in one run only", k + 1),
                                };
                                out.fail("schedule-dependent", w);
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    no_stray_panics(out);
}

pub fn shrink(b: &B) -> Vec<B> {
    match b {
        B::Tiles { t, prewarm } => {
            let mut v: Vec<B> = t.shrink().into_iter().map(|t| B::Tiles { t, prewarm: *prewarm }).collect();
            if *prewarm {
                v.push(B::Tiles { t: t.clone(), prewarm: false });
            }
            if t.strat != Strat::Every {
                v.push(B::Tiles { t: Tiles { strat: Strat::Every, ..t.clone() }, prewarm: *prewarm });
            }
            v
        }
        B::Same { s, threads } => {
            let mut v: Vec<B> = scenes::shrink(s).into_iter().filter(|s| s.has_light()).map(|s| B::Same { s, threads: threads.clone() }).collect();
            if threads.len() > 2 {
                v.push(B::Same { s: s.clone(), threads: threads[..2].to_vec() });
            }
            if threads.iter().any(|&t| t > 2) {
                v.push(B::Same { s: s.clone(), threads: threads.iter().map(|&t| t.min(2)).collect() });
            }
            v
        }
    }
}
