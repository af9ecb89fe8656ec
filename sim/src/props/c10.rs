//! Post processing is a fixed function of the samples, applied in order.
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::{take_panics, RunOut};
use crate::pixels;
use crate::prng::Rng;
use crate::render::*;
use crate::spec::*;
use crate::swarm;
use crate::tiles::{flat_tiles, gen_cam, simple_cam};
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};
use solstrale::post::{BloomPostProcessor, PostProcessor};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub seed: u64,
    /// 0: ordinary colours, 1: mostly dark with a few very bright ones, 2: all dark, 3: all bright, 4: at thresholds, 5: dark with a few up to 1e7
    pub kind: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    /// One processor called directly, several times on the same input.
    Direct { pic: Pic, samples: u32, post: Post, times: u32 },
    /// Several pictures through processors of the same parameters, the processor kept or made anew.
    History { pics: Vec<(Pic, u32)>, post: Post, keep: bool },
    /// A render of known colours through a chain.
    Chain { pic: Pic, cam: Cam, spp: u32, posts: Vec<Post>, strat: Strat },
    /// Parameters that must be refused or accepted.
    Params { frac: f64, ok: bool },
}

pub const RULE: &str = "A third of the runs call one post processor on random sums of samples (any size, number of samples and parameters), most others render a scene of known colours through a random chain of processors and compare every image with a sequential reference of the chain, the rest try parameters at and beyond their limits.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 12000;

fn bloom(r: &mut Rng) -> Post {
    Post::Bloom {
        frac: match r.below(8) {
            0 => 0.0,
            1 => 0.5,
            _ => r.range(0.0, 0.5),
        },
        threshold: match r.below(10) {
            0..=3 => None,
            4 | 5 => Some(0.0),
            6 | 7 => Some(*r.pick(&[0.25, 0.5, 1.0, 2.0])),
            _ => Some(r.log(0.05, 5.0)),
        },
        max: if r.chance(0.5) { Some(if r.chance(0.1) { r.log(20.0, 1e5) } else { r.log(0.2, 20.0) }) } else { None },
    }
}

fn pic(r: &mut Rng, w: i64, h: i64) -> Pic {
    let side = |r: &mut Rng, m: i64| if r.chance(0.15) { 1 } else { r.int(1, m) as usize };
    Pic { w: side(r, w), h: side(r, h), seed: r.u64(), kind: *r.pick(&[0, 0, 1, 1, 1, 2, 3, 4, 5]) }
}

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = RngMode::Margin;
    let b = match r.below(20) {
        0 => {
            let (frac, ok) = *r.pick(&[(0.0, true), (0.5, true), (-1e-9, false), (0.500001, false), (f64::INFINITY, false), (f64::NEG_INFINITY, false), (-5.0, false), (1.0, false), (0.25, true), (f64::MAX, false)]);
            B::Params { frac, ok }
        }
        1 | 2 => {
            let n = r.int(2, 4);
            let mut pics: Vec<(Pic, u32)> = vec![];
            for i in 0..n {
                let mut p = pic(r, 24, 24);
                if i > 0 {
                    match r.below(4) {
                        0 => p.w = pics[0].0.w,
                        1 => p.h = pics[0].0.h,
                        2 => (p.w, p.h) = (pics[0].0.h, pics[0].0.w),
                        _ => {}
                    }
                }
                pics.push((p, r.int(1, 9) as u32));
            }
            B::History { pics, post: if r.chance(0.9) { bloom(r) } else { Post::Nop }, keep: r.chance(0.5) }
        }
        3..=7 => {
            let post = if r.chance(0.75) {
                bloom(r)
            } else if r.chance(0.5) {
                Post::Nop
            } else {
                Post::Oidn
            };
            let p = match r.below(16) {
                // long rows and columns
                0 => Pic { w: r.log(26.0, 300.0) as usize, h: r.int(1, 6) as usize, ..pic(r, 1, 1) },
                1 => Pic { w: r.int(1, 6) as usize, h: r.log(26.0, 300.0) as usize, ..pic(r, 1, 1) },
                2 if r.chance(0.2) => Pic { w: r.log(26.0, 70.0) as usize, h: r.log(26.0, 70.0) as usize, ..pic(r, 1, 1) },
                3 if r.chance(0.2) => Pic { w: r.log(300.0, 1100.0) as usize, h: 1, ..pic(r, 1, 1) },
                4 if r.chance(0.2) => Pic { w: 1, h: r.log(300.0, 1100.0) as usize, ..pic(r, 1, 1) },
                _ => pic(r, 26, 26),
            };
            B::Direct { pic: p, samples: if r.chance(0.3) { 1 } else { r.log(1.0, 5000.0) as u32 }, post, times: r.int(1, 2) as u32 }
        }
        _ => {
            let mut cam = gen_cam(r);
            cam.aperture = 0.0;
            let n = r.int(1, 4);
            B::Chain {
                pic: pic(r, 9, 9),
                cam,
                spp: r.int(1, 6) as u32,
                posts: (0..n)
                    .map(|_| match r.below(6) {
                        0 => Post::Nop,
                        1 => Post::Oidn,
                        _ => bloom(r),
                    })
                    .collect(),
                strat: if r.chance(0.8) { Strat::Every } else { Strat::Final },
            }
        }
    };
    (sim, swarm::threads(r), b)
}

fn colors(p: &Pic) -> Vec<V> {
    let mut r = Rng::new(p.seed);
    (0..p.w * p.h)
        .map(|_| {
            if p.kind == 4 {
                // exactly at a threshold
                let mut c = [0.0; 3];
                c[r.below(3) as usize] = *r.pick(&[0.0, 0.25, 0.5, 1.0, 2.0]);
                return c;
            }
            let k = match p.kind {
                0 => r.range(0.0, 1.4),
                1 => {
                    if r.chance(0.12) {
                        r.range(1.0, 30.0)
                    } else {
                        r.range(0.0, 0.5)
                    }
                }
                2 => r.range(0.0, 0.3),
                5 => {
                    if r.chance(0.12) {
                        r.log(1.0, 1e7)
                    } else {
                        r.range(0.0, 0.5)
                    }
                }
                _ => r.range(1.0, 4.0),
            };
            if r.chance(0.03) {
                [0.0, 0.0, 0.0]
            } else {
                [k * r.range(0.3, 1.0), k * r.range(0.3, 1.0), k * r.range(0.3, 1.0)]
            }
        })
        .collect()
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    match b {
        B::Params { frac, ok } => {
            let r = std::panic::catch_unwind(|| BloomPostProcessor::new(*frac, None, None).is_ok());
            out.probe("checked", 1);
            match r {
                Ok(x) if x == *ok => {}
                Ok(x) => out.fail("parameters", format!("bloom with radius fraction {frac} was {}", if x { "accepted" } else { "refused" })),
                Err(_) => out.fail("panic", format!("bloom with radius fraction {frac} panicked: {}", take_panics().join(" | "))),
            }
        }
        B::Direct { pic, samples, post, times } => direct(pic, *samples, post, &post.real(), *times, out),
        B::History { pics, post, keep } => {
            let p = post.real();
            for (pic, samples) in pics {
                if *keep {
                    direct(pic, *samples, post, &p, 1, out);
                } else {
                    direct(pic, *samples, post, &post.real(), 1, out);
                }
                out.probe("history", 1);
                if !out.viol.is_empty() {
                    break;
                }
            }
        }
        B::Chain { pic, cam, spp, posts, strat } => {
            let c = colors(pic);
            let (w, h) = (pic.w, pic.h);
            let s = SceneSpec {
                objs: flat_tiles(cam, w, h, |x, y| c[y * w + x]),
                cam: cam.clone(),
                bg: [0.0, 0.0, 0.0],
                w,
                h,
                spp: *spp,
                shader: Sh::Path(3),
                posts: posts.clone(),
                strat: strat.clone(),
            };
            let o = run_one(Job { target: Target::Scene(Box::new(s.real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
            if must_be_ok(out, "the render", &o.end) {
                let Some(want) = pixels::chain(&c, w, h, posts) else {
                    out.probe("inconclusive", 1);
                    return;
                };
                if o.reports.last().is_none_or(|r| r.img.is_none()) {
                    out.fail("no-final-image", "the last report carries no image");
                }
                for (i, r) in o.reports.iter().enumerate() {
                    if let Some(img) = &r.img {
                        out.probe("checked", 1);
                        out.probe("chain_images", 1);
                        if let Err(e) = pixels::compare(img, w, h, &want) {
                            out.fail("chain", format!("image after {} of {spp} samples through {} processors: {e}", i + 1, posts.len()));
                            break;
                        }
                    }
                }
            }
        }
    }
    no_stray_panics(out);
}

fn direct(pic: &Pic, samples: u32, post: &Post, p: &impl PostProcessor, times: u32, out: &mut RunOut) {
    let c = colors(pic);
    let (w, h) = (pic.w, pic.h);
    let sums: Vec<_> = c.iter().map(|p| v3(*p) * samples as f64).collect();
    let empty = [];
    let Some(want) = pixels::chain(&c, w, h, std::slice::from_ref(post)) else {
        out.probe("inconclusive", 1);
        return;
    };
    for _ in 0..times {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let a = p.intermediate_post_process(&sums, &empty, &empty, w as u32, h as u32, samples).map_err(|e| e.to_string())?;
            let b = p.post_process(&sums, &empty, &empty, w as u32, h as u32, samples).map_err(|e| e.to_string())?;
            Ok::<_, String>((a, Img { w: b.width(), h: b.height(), px: b.into_raw() }))
        }));
        out.probe("checked", 1);
        match r {
            Err(_) => out.fail("panic", format!("{post:?} panicked: {}", take_panics().join(" | "))),
            Ok(Err(e)) => out.fail("post-error", format!("{post:?} returned an error: {e}")),
            Ok(Ok((a, img))) => {
                if a.len() != w * h {
                    out.fail("post-size", format!("{} colours for {}x{} pixels", a.len(), w, h));
                    return;
                }
                for (i, (got, want)) in a.iter().zip(&want).enumerate() {
                    let g = arr(*got * (1.0 / samples as f64));
                    for k in 0..3 {
                        if (g[k] - want[k]).abs() > 1e-9 * (1.0 + want[k].abs()) || !g[k].is_finite() {
                            out.fail("post-result", format!("{post:?}: pixel ({},{}) channel {k} is {}, should be {}", i % w, i / w, g[k], want[k]));
                            return;
                        }
                    }
                }
                if let Err(e) = pixels::compare(&img, w, h, &want) {
                    out.fail("post-image", format!("{post:?}: {e}"));
                    return;
                }
            }
        }
    }
}

pub fn shrink(b: &B) -> Vec<B> {
    let pics = |p: &Pic| {
        let mut v = vec![];
        for w in [1, 2, p.w / 2, p.w - 1] {
            if w >= 1 && w < p.w {
                v.push(Pic { w, ..p.clone() });
            }
        }
        for h in [1, 2, p.h / 2, p.h - 1] {
            if h >= 1 && h < p.h {
                v.push(Pic { h, ..p.clone() });
            }
        }
        v
    };
    match b {
        B::Params { .. } => vec![],
        B::History { pics: l, post, keep } => {
            let mut v = vec![];
            for i in 0..l.len() {
                if l.len() > 1 {
                    let mut l2 = l.clone();
                    l2.remove(i);
                    v.push(B::History { pics: l2, post: post.clone(), keep: *keep });
                }
                for p in pics(&l[i].0) {
                    let mut l2 = l.clone();
                    l2[i].0 = p;
                    v.push(B::History { pics: l2, post: post.clone(), keep: *keep });
                }
                if l[i].1 > 1 {
                    let mut l2 = l.clone();
                    l2[i].1 = 1;
                    v.push(B::History { pics: l2, post: post.clone(), keep: *keep });
                }
            }
            v
        }
        B::Direct { pic, samples, post, times } => {
            let mut v: Vec<B> = pics(pic).into_iter().map(|pic| B::Direct { pic, samples: *samples, post: post.clone(), times: *times }).collect();
            if *samples > 1 {
                v.push(B::Direct { pic: pic.clone(), samples: 1, post: post.clone(), times: *times });
            }
            if *times > 1 {
                v.push(B::Direct { pic: pic.clone(), samples: *samples, post: post.clone(), times: 1 });
            }
            v
        }
        B::Chain { pic, cam, spp, posts, strat } => {
            let mk = |pic: Pic, cam: Cam, spp: u32, posts: Vec<Post>| B::Chain { pic, cam, spp, posts, strat: strat.clone() };
            let mut v: Vec<B> = pics(pic).into_iter().map(|p| mk(p, cam.clone(), *spp, posts.clone())).collect();
            for i in 0..posts.len() {
                let mut p = posts.clone();
                p.remove(i);
                v.push(mk(pic.clone(), cam.clone(), *spp, p));
            }
            if *spp > 1 {
                v.push(mk(pic.clone(), cam.clone(), 1, posts.clone()));
                v.push(mk(pic.clone(), cam.clone(), *spp - 1, posts.clone()));
            }
            if *cam != simple_cam() {
                v.push(mk(pic.clone(), simple_cam(), *spp, posts.clone()));
            }
            v
        }
    }
}
