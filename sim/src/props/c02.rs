//! Progress reporting: one report per sample, in order, ending with the final image.
use super::upset::{cost_of_one, gen_tiles, prefix, shrink_tiles, When};
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::RunOut;
use crate::prng::Rng;
use crate::render::*;
use crate::scenes;
use crate::spec::*;
use crate::swarm;
use crate::tiles::Tiles;
use serde::{Deserialize, Serialize};
use simrt::SimCfg;
use solstrale::renderer::Renderer;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct B {
    pub s: SceneSpec,
    pub recv: RecvPlan,
    pub abort: AbortPlan,
    /// Remove every light first.
    pub dark: bool,
    /// Render this many times with one `Renderer` (0: `ray_trace`).
    pub reuse: u32,
    /// Instead: look into the channel at moments of a render whose samples all cost the same.
    #[serde(default)]
    pub watch: Option<Watch>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Watch {
    pub t: Tiles,
    pub at: Vec<When>,
}

pub const RULE: &str = "Each run renders a random scene (any size, sample count, shader, strategy, post processors; read at once or only afterwards; sometimes without a light, sometimes repeatedly with one Renderer) and checks the whole report sequence; or it looks into the channel at steps, random draws and sample borders of the render and compares the number of reports with the number of samples traced.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 16000;

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    let mut s = scenes::scene(r, &scenes::Opts { w: 6, h: 6, spp: 8, objs: 4, fog: true, posts: true, depth: 4 });
    super::c01::fix_posts(&mut s);
    if r.chance(0.15) {
        s.w = r.int(1, 2) as usize;
        s.h = 1;
        s.spp = r.int(30, 300) as u32;
    }
    if r.chance(0.004) {
        s.w = 1;
        s.h = 1;
        s.spp = r.log(300.0, 6000.0) as u32;
        s.objs.truncate(1);
        if !s.has_light() {
            s.objs.push(Obj::Sphere { c: s.cam.at, r: 0.5, mat: scenes::light(r) });
        }
        s.posts.clear();
    }
    if r.chance(0.0015) {
        let n = r.log(10_000.0, 70_000.0) as usize;
        (s.w, s.h) = if r.chance(0.5) { (n, 1) } else { (1, n) };
        s.spp = 1;
        s.posts.clear();
        s.shader = Sh::Path(1);
        sim.policy = simrt::Policy::Coop;
        sim.max_edges = 2_000_000_000;
    }
    if r.chance(0.4) {
        sim.clock = swarm::wild_clock(r, s.spp as u64 * (s.w * s.h * 3) as u64, s.spp as u64 + 2);
    }
    let mut watch = None;
    if r.chance(0.25) {
        sim.rng = swarm::constant(r);
        let t = gen_tiles(r, 5, 5, 12);
        let n = r.int(1, 6);
        watch = Some(Watch { at: (0..n).map(|_| When::gen(r, t.spp)).collect(), t });
    }
    let dark = r.chance(0.1);
    (
        sim,
        swarm::threads(r),
        B {
            s,
            recv: if r.chance(0.3) { RecvPlan::Lazy } else { RecvPlan::Drain },
            abort: if r.chance(0.2) { AbortPlan::Dropped } else { AbortPlan::Never },
            dark,
            reuse: if r.chance(0.2) { r.int(1, 3) as u32 } else { 0 },
            watch,
        },
    )
}

fn strip(o: &[Obj]) -> Vec<Obj> {
    o.iter().filter(|o| !o.has_light()).cloned().collect()
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    let mut s = b.s.clone();
    if let Some(w) = &b.watch {
        watched(w, out);
    } else if b.dark {
        s.objs = strip(&s.objs);
        let o = run_one(Job { target: Target::Scene(Box::new(s.real())), abort: b.abort.clone(), recv: b.recv.clone() });
        out.probe("checked", 1);
        out.probe("lightless_scenes", 1);
        match &o.end {
            End::Err(_) => {}
            e => out.fail("no-light-accepted", format!("a scene without a light gave {e:?}, not an error")),
        }
        if !o.reports.is_empty() {
            out.fail("no-light-report", format!("{} reports for a scene without a light", o.reports.len()));
        }
    } else if b.reuse == 0 {
        let o = run_one(Job { target: Target::Scene(Box::new(s.real())), abort: b.abort.clone(), recv: b.recv.clone() });
        judge(&s, &o, out);
    } else {
        match Renderer::new(s.real()) {
            Err(e) => out.fail("render-error", format!("Renderer::new failed on a scene with a light: {e}")),
            Ok(r) => {
                let r = Arc::new(r);
                for _ in 0..b.reuse {
                    let o = run_one(Job { target: Target::Renderer(r.clone()), abort: b.abort.clone(), recv: b.recv.clone() });
                    judge(&s, &o, out);
                }
            }
        }
    }
    no_stray_panics(out);
}

fn watched(w: &Watch, out: &mut RunOut) {
    let Some(one) = cost_of_one(&w.t, out) else { return };
    let base = mark();
    let mut at: Vec<_> = w.at.iter().map(|x| x.trig(&base, &one, w.t.spp)).collect();
    at.sort_by_key(|t| match *t {
        simrt::Trig::Draw(n) => (n - base.draws).saturating_mul(one.edges),
        simrt::Trig::Edge(n) => (n - base.edges).saturating_mul(one.draws),
    });
    let o = run_one(Job { target: Target::Scene(Box::new(w.t.scene().real())), abort: AbortPlan::Never, recv: RecvPlan::Peek(at) });
    out.probe("checked", 1);
    if !must_be_ok(out, "the render", &o.end) {
        return;
    }
    if o.reports.len() as u32 != w.t.spp {
        out.fail("report-count", format!("{} reports for {} samples", o.reports.len(), w.t.spp));
        return;
    }
    prefix(&w.t, &o.reports, out);
    let (per, n) = (one.draws, w.t.spp as u64);
    if simrt::draws() - base.draws != n * per {
        out.probe("uneven_samples", 1);
        return;
    }
    for p in &o.peeks {
        let due = (p.before.draws - base.draws).div_ceil(per).saturating_sub(1);
        let can = (p.after.draws - base.draws) / per;
        out.probe("looks", 1);
        if (p.reports as u64) < due {
            out.fail("report-late", format!("sample {} of {n} is being traced, but only {} reports have been delivered", due + 1, p.reports));
        }
        if p.reports as u64 > can {
            out.fail("report-early", format!("{} reports have been delivered after {can} complete samples of {n}", p.reports));
        }
    }
}

pub fn judge(s: &SceneSpec, o: &RenderOut, out: &mut RunOut) {
    if !must_be_ok(out, "the render", &o.end) {
        return;
    }
    out.probe("checked", 1);
    out.probe("reports", o.reports.len() as u64);
    if o.reports.len() as u32 != s.spp {
        out.fail("report-count", format!("{} reports for {} samples", o.reports.len(), s.spp));
        return;
    }
    for (i, r) in o.reports.iter().enumerate() {
        let k = i as u32 + 1;
        let want = k as f64 / s.spp as f64;
        if (r.progress - want).abs() > 1e-6 || !r.progress.is_finite() {
            out.fail("progress", format!("report {k} of {} has progress {}", s.spp, r.progress));
        }
        if i > 0 && r.progress <= o.reports[i - 1].progress {
            out.fail("progress", format!("progress goes from {} to {}", o.reports[i - 1].progress, r.progress));
        }
        if r.progress > 1.0 || (r.progress == 1.0) != (k == s.spp) {
            out.fail("progress", format!("report {k} of {} has progress {}", s.spp, r.progress));
        }
        if let Some(img) = &r.img {
            if img.w as usize != s.w || img.h as usize != s.h || img.px.len() != s.w * s.h * 3 {
                out.fail("image-size", format!("image of {}x{} for a {}x{} render", img.w, img.h, s.w, s.h));
            }
        }
    }
    match o.reports.last() {
        Some(r) if r.img.is_some() => {}
        _ => out.fail("no-final-image", "the last report carries no image"),
    }
}

pub fn shrink(b: &B) -> Vec<B> {
    if let Some(w) = &b.watch {
        let mut v: Vec<Watch> = shrink_tiles(&w.t).into_iter().map(|t| Watch { t, ..w.clone() }).collect();
        for i in 0..w.at.len() {
            let mut at = w.at.clone();
            at.remove(i);
            v.push(Watch { at, ..w.clone() });
        }
        return v.into_iter().map(|w| B { watch: Some(w), ..b.clone() }).collect();
    }
    let mut v: Vec<B> = scenes::shrink(&b.s).into_iter().filter(|s| s.has_light()).map(|s| B { s, ..b.clone() }).collect();
    if b.reuse > 0 {
        v.push(B { reuse: b.reuse - 1, ..b.clone() });
    }
    if b.recv != RecvPlan::Drain {
        v.push(B { recv: RecvPlan::Drain, ..b.clone() });
    }
    if b.abort != AbortPlan::Never {
        v.push(B { abort: AbortPlan::Never, ..b.clone() });
    }
    v
}
