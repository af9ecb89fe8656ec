//! Renders running at the same time do not affect each other.
use super::upset::*;
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::{isolated, RunOut};
use crate::prng::Rng;
use crate::render::*;
use crate::scenes;
use crate::spec::*;
use crate::swarm;
use crate::tiles::Tiles;
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg, Trig};
use solstrale::renderer::Renderer;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fate {
    Undisturbed,
    Abort(u64),
    Leave(u64),
    LeaveAfter(u32),
    /// Refused: the scene has no light.
    Dark,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct One {
    pub t: Tiles,
    pub fate: Fate,
    /// Uses the renderer of the job with this index (an earlier one) if any.
    pub share: Option<usize>,
    pub lazy: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    Tiles(Vec<One>),
    /// Any scenes, all random values equal: the images must be those of each alone.
    Same { scenes: Vec<SceneSpec>, share: bool },
}

pub const RULE: &str = "Each run renders two to four scenes at once, some sharing one Renderer, some aborted, left by their receiver or refused; the images of the undisturbed ones are decoded, or, with all random values equal, compared byte for byte with those of the same scene rendered alone in a process of its own (often the scenes are alike in all but one respect, so that anything shared between renders by a key too coarse shows).";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 12000;

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    let threads = *r.pick(&[1, 1, 2, 2, 3, 4]);
    if r.chance(0.65) {
        sim.rng = RngMode::Margin;
        let n = r.int(2, 4) as usize;
        let mut v: Vec<One> = vec![];
        for i in 0..n {
            let mut t = gen_tiles(r, 5, 5, 6);
            t.code0 = i * 4000 + r.below(1000) as usize;
            if i > 0 && r.chance(0.3) {
                // same size, so that mixed-up buffers would fit
                t.w = v[0].t.w;
                t.h = v[0].t.h;
            }
            t.cap(900);
            let px = (t.w * t.h * 2) as u64;
            let at = r.below(px * t.spp as u64 * n as u64 + 2);
            let mut fate = match r.below(8) {
                0 => Fate::Abort(at),
                1 => Fate::Leave(at),
                2 => Fate::LeaveAfter(r.int(0, t.spp as i64) as u32),
                3 if r.chance(0.5) => Fate::Dark,
                _ => Fate::Undisturbed,
            };
            if i + 1 == n && v.iter().all(|o| o.fate != Fate::Undisturbed) {
                fate = Fate::Undisturbed;
            }
            let mut share = None;
            if i > 0 && fate != Fate::Dark && r.chance(0.3) {
                let k = r.below(i as u64) as usize;
                let k = v[k].share.unwrap_or(k);
                if v[k].fate != Fate::Dark {
                    share = Some(k);
                    t = v[k].t.clone();
                }
            }
            v.push(One { t, fate, share, lazy: r.chance(0.2) });
        }
        (sim, threads, B::Tiles(v))
    } else {
        let mut c = r.range(0.22, 0.78);
        if (c - 0.5f64).abs() < 0.01 {
            c = 0.41;
        }
        sim.rng = RngMode::Const { c };
        let n = r.int(2, 3);
        let mut scenes: Vec<SceneSpec> = vec![];
        for i in 0..n {
            let mut s = scenes::scene(r, &scenes::Opts { w: 5, h: 5, spp: 4, objs: 4, fog: true, posts: true, depth: 5 });
            s.strat = Strat::Every;
            super::c01::fix_posts(&mut s);
            if i > 0 && r.chance(0.7) {
                // a sibling of the first: the same in all but one respect or a few
                let mut t = scenes[0].clone();
                if r.chance(0.5) {
                    t = scenes::nudge(r, &t);
                    super::c01::fix_posts(&mut t);
                    scenes.push(t);
                    continue;
                }
                for _ in 0..r.int(1, 2) {
                    match r.below(9) {
                        0 => t.w = s.w,
                        1 => t.h = s.h,
                        2 => (t.w, t.h) = if t.w != t.h { (t.h, t.w) } else { (s.w, s.h) },
                        3 => t.spp = s.spp,
                        4 => t.objs = s.objs.clone(),
                        5 => t.cam = s.cam.clone(),
                        6 => t.posts = s.posts.clone(),
                        7 => t.shader = s.shader.clone(),
                        _ => t.bg = s.bg,
                    }
                }
                s = t;
            }
            scenes.push(s);
        }
        (sim, threads, B::Same { scenes, share: r.chance(0.3) })
    }
}

fn dark(mut s: SceneSpec) -> SceneSpec {
    for o in s.objs.iter_mut() {
        if let Obj::Quad { mat, .. } = o {
            *mat = Mat::Lambert { tex: Tex::Solid([0.5, 0.5, 0.5]), bump: None };
        }
    }
    s
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    let alone = match b {
        B::Tiles(_) => vec![],
        B::Same { scenes, .. } => scenes.iter().map(|s| isolated(sim.clone(), || alone(s))).collect(),
    };
    simrt::start(sim, fin);
    let alive = warm();
    match b {
        B::Tiles(list) => tiles(list, out),
        B::Same { scenes, share } => same(scenes, &alone, *share, out),
    }
    workers_gone(alive, "the renders", out);
    no_stray_panics(out);
}

fn tiles(list: &[One], out: &mut RunOut) {
    let mut renderers: Vec<Option<Arc<Renderer>>> = vec![];
    let mut jobs = vec![];
    for (i, o) in list.iter().enumerate() {
        let spec = o.t.scene();
        let leads = list.iter().any(|x| x.share == Some(i));
        let mut own = None;
        let target = if let Some(k) = o.share {
            Target::Renderer(renderers[k].clone().expect("shared renderer"))
        } else if leads {
            match Renderer::new(spec.real()) {
                Ok(r) => {
                    let r = Arc::new(r);
                    own = Some(r.clone());
                    Target::Renderer(r)
                }
                Err(e) => {
                    out.fail("render-error", format!("Renderer::new failed: {e}"));
                    return;
                }
            }
        } else {
            Target::Scene(Box::new(if o.fate == Fate::Dark { dark(spec).real() } else { spec.real() }))
        };
        renderers.push(own);
        let base = simrt::draws();
        jobs.push(Job {
            target,
            abort: match o.fate {
                Fate::Abort(at) => AbortPlan::At(Trig::Draw(base + at), true),
                _ => AbortPlan::Never,
            },
            recv: match o.fate {
                Fate::Leave(at) => RecvPlan::DropAt(Trig::Draw(base + at)),
                Fate::LeaveAfter(n) => RecvPlan::DropAfter(n),
                _ if o.lazy => RecvPlan::Lazy,
                _ => RecvPlan::Drain,
            },
        });
    }
    let outs = run_jobs(jobs);
    out.probe("checked", 1);
    out.probe("concurrent_renders", outs.len() as u64);
    for (i, (o, one)) in outs.iter().zip(list).enumerate() {
        let what = format!("render {} of {}", i + 1, list.len());
        match one.fate {
            Fate::Undisturbed => {
                if !complete(&one.t, o, &what, out) {
                    return;
                }
                out.probe("undisturbed", 1);
            }
            Fate::Dark => match &o.end {
                End::Err(_) if o.reports.is_empty() => out.probe("refused", 1),
                e => out.fail("no-light-accepted", format!("{what}, without a light, gave {e:?} and {} reports", o.reports.len())),
            },
            Fate::Abort(_) => {
                prefix(&one.t, &o.reports, out);
                must_be_ok(out, &what, &o.end);
                out.probe("aborted", 1);
            }
            Fate::Leave(_) | Fate::LeaveAfter(_) => {
                prefix(&one.t, &o.reports, out);
                match &o.end {
                    End::Ok | End::Err(_) => out.probe("receiver_left", 1),
                    e => out.fail("bad-end", format!("{what}, left by its receiver, ended with {e:?}")),
                }
            }
        }
    }
}

/// What this scene gives in a process of its own: how it ended, progress (its bits) and image of each report.
type Alone = (End, Vec<(u64, Option<Img>)>);

fn alone(s: &SceneSpec) -> Alone {
    let o = run_one(Job { target: Target::Scene(Box::new(s.real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
    (o.end, o.reports.into_iter().map(|r| (r.progress.to_bits(), r.img)).collect())
}

fn same(scenes: &[SceneSpec], alone: &[Option<Alone>], share: bool, out: &mut RunOut) {
    for a in alone {
        let end = a.as_ref().map_or(&End::Hung, |a| &a.0);
        if !must_be_ok(out, "a render alone", end) {
            return;
        }
    }
    let alone: Vec<&Alone> = alone.iter().flatten().collect();
    let mut jobs = vec![];
    let mut of = vec![];
    for (i, s) in scenes.iter().enumerate() {
        if share && i == 0 {
            match Renderer::new(s.real()) {
                Ok(r) => {
                    let r = Arc::new(r);
                    for _ in 0..2 {
                        jobs.push(Job { target: Target::Renderer(r.clone()), abort: AbortPlan::Never, recv: RecvPlan::Drain });
                        of.push(i);
                    }
                }
                Err(e) => {
                    out.fail("render-error", format!("Renderer::new failed: {e}"));
                    return;
                }
            }
        } else {
            jobs.push(Job { target: Target::Scene(Box::new(s.real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
            of.push(i);
        }
    }
    let outs = run_jobs(jobs);
    out.probe("checked", 1);
    out.probe("concurrent_renders", outs.len() as u64);
    for (j, o) in outs.iter().enumerate() {
        let a = alone[of[j]];
        let what = format!("render {} of {}", j + 1, outs.len());
        if !must_be_ok(out, &what, &o.end) {
            return;
        }
        if a.1.len() != o.reports.len() {
            out.fail("report-count", format!("{what}: {} reports, {} when alone", o.reports.len(), a.1.len()));
            return;
        }
        for (k, ((progress, img), y)) in a.1.iter().zip(&o.reports).enumerate() {
            if *img != y.img || *progress != y.progress.to_bits() {
                out.fail("differs-from-alone", format!("{what}: report {} differs from the one the same render gives alone", k + 1));
                return;
            }
            out.probe("same_images", 1);
        }
    }
}

pub fn shrink(b: &B) -> Vec<B> {
    match b {
        B::Tiles(l) => {
            let mut v = vec![];
            if l.len() > 2 {
                for i in 0..l.len() {
                    if l.iter().all(|o| o.share.is_none()) {
                        let mut l2 = l.clone();
                        l2.remove(i);
                        v.push(B::Tiles(l2));
                    }
                }
                if l[l.len() - 1].share.is_some() || l.iter().all(|o| o.share != Some(l.len() - 1)) {
                    v.push(B::Tiles(l[..l.len() - 1].to_vec()));
                }
            }
            for i in 0..l.len() {
                if l[i].fate != Fate::Undisturbed {
                    let mut l2 = l.clone();
                    l2[i].fate = Fate::Undisturbed;
                    v.push(B::Tiles(l2));
                }
                if l[i].lazy {
                    let mut l2 = l.clone();
                    l2[i].lazy = false;
                    v.push(B::Tiles(l2));
                }
                if l[i].share.is_none() {
                    for t in shrink_tiles(&l[i].t) {
                        let mut l2 = l.clone();
                        l2[i].t = t.clone();
                        for o in l2.iter_mut() {
                            if o.share == Some(i) {
                                o.t = t.clone();
                            }
                        }
                        v.push(B::Tiles(l2));
                    }
                }
            }
            v
        }
        B::Same { scenes, share } => {
            let mut v = vec![];
            if scenes.len() > 1 {
                for i in 0..scenes.len() {
                    let mut s = scenes.clone();
                    s.remove(i);
                    v.push(B::Same { scenes: s, share: *share });
                }
            }
            for i in 0..scenes.len() {
                for s in scenes::shrink(&scenes[i]) {
                    if s.has_light() {
                        let mut l = scenes.clone();
                        l[i] = s;
                        v.push(B::Same { scenes: l, share: *share });
                    }
                }
            }
            v
        }
    }
}
