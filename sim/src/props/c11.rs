//! The denoiser gets this render's colour, albedo and normals; its failures are errors.
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::{take_panics, RunOut};
use crate::model::{self, p, Draw, World, P};
use crate::pixels;
use crate::prng::Rng;
use crate::render::*;
use crate::scenes;
use crate::spec::*;
use crate::swarm;
use crate::tiles::{gen_cam, simple_cam, view_rect};
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};
use solstrale::hittable::{Bvh, Hittables};
use solstrale::post::PostProcessor;
use solstrale::renderer::Renderer;
use std::sync::Arc;

/// What one half of a pixel shows.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Half {
    Nothing,
    Light(V),
    /// Colour and normal map value.
    Matte(V, Option<[u8; 3]>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    /// Tiles of two halves under arbitrary draws.
    Tiles { w: usize, h: usize, spp: u32, cam: Cam, bg: V, path: bool, halves: Vec<[Half; 2]>, posts: Vec<Post>, strat: Strat, filter: Vec<usize>, device: Vec<usize>, reuse: u32 },
    /// Any scene, every draw the same.
    Scene { s: SceneSpec, c: f64 },
    /// The processor on its own.
    Direct { w: usize, h: usize, seed: u64, samples: u32, filter: bool, device: bool },
}

pub const RULE: &str = "Most runs render tiles whose halves differ in colour, albedo and normal (lights, bump-mapped surfaces, gaps showing the background) under arbitrary draws and preempting schedules, so that the three buffers the denoiser stand-in receives tell which samples they were made from; others render random scenes of everything with one fixed draw and compare all three buffers with the reference, or hand the processor random sums. The stand-in fails in its filter or with a device error at chosen images, and is also put in the middle of the chain or used twice; then the render has to end with an error. Its output (not the plain image) must be what is reported.";
pub const STUBS: &[&str] = &["Open Image DeNoise (a stand-in that records its input, answers 1 - colour / 2 and fails on demand)"];
pub const QUICK_RUNS: u64 = 60000;

fn half(r: &mut Rng) -> Half {
    match r.below(8) {
        0 => Half::Nothing,
        1..=3 => Half::Light([r.range(0.0, 1.3), r.range(0.0, 1.0), r.range(0.0, 0.95)]),
        _ => Half::Matte([r.range(0.0, 1.0), r.range(0.0, 1.0), r.range(0.0, 1.0)], if r.chance(0.7) { Some([r.below(256) as u8, r.below(256) as u8, r.int(140, 255) as u8]) } else { None }),
    }
}

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = RngMode::Margin;
    let b = match r.below(20) {
        0 | 1 => B::Direct { w: r.int(1, 12) as usize, h: r.int(1, 12) as usize, seed: r.u64(), samples: r.log(1.0, 2000.0) as u32, filter: r.chance(0.2), device: r.chance(0.2) },
        2..=6 => {
            let mut s = loop {
                let s = scenes::scene(r, &scenes::Opts { w: 7, h: 7, spp: 3, objs: 8, fog: true, posts: false, depth: 5 });
                if s.objs.iter().all(super::c15::bumps_ok) {
                    break s;
                }
            };
            s.cam.aperture = 0.0;
            s.strat = if r.chance(0.8) { Strat::Every } else { Strat::Final };
            s.posts = if r.chance(0.3) { vec![Post::Nop, Post::Oidn] } else { vec![Post::Oidn] };
            let c = model::gen_const(r);
            sim.rng = RngMode::Const { c };
            B::Scene { s, c }
        }
        _ => {
            let (w, h) = (r.int(1, 6) as usize, r.int(1, 6) as usize);
            let mut cam = gen_cam(r);
            cam.aperture = 0.0;
            let path = r.chance(0.4);
            // only with equal halves is the mean known that another processor is to work on
            let flat = r.chance(0.3);
            let halves = (0..w * h)
                .map(|_| {
                    let a = half(r);
                    let b = if flat { a.clone() } else { half(r) };
                    [a, b]
                })
                .collect();
            let mut posts = vec![];
            for _ in 0..*r.pick(&[0, 0, 1, 2]) {
                posts.push(if flat && r.chance(0.5) { Post::Bloom { frac: r.range(0.0, 0.4), threshold: Some(r.range(0.05, 1.0)), max: None } } else { Post::Nop });
            }
            posts.push(Post::Oidn);
            let (mut filter, mut device) = (vec![], vec![]);
            let spp = r.int(1, 6) as u32;
            match r.below(20) {
                0 | 1 => {
                    // not the last one
                    let last = if r.chance(0.4) { Post::Oidn } else { Post::Nop };
                    posts.push(last);
                }
                2 | 3 => filter.push(r.int(1, spp as i64) as usize),
                4 | 5 => device.push(r.int(1, spp as i64) as usize),
                _ => {}
            }
            let strat = match r.below(5) {
                0 => Strat::Final,
                1 => Strat::Interval(r.log(1.0, 1e9) as u64),
                _ => Strat::Every,
            };
            B::Tiles { w, h, spp, cam, bg: if path { [0.0; 3] } else { [r.f() * 0.9, r.f() * 0.9, r.f() * 0.9] }, path, halves, posts, strat, filter, device, reuse: if r.chance(0.15) { 2 } else { 1 } }
        }
    };
    (sim, swarm::threads(r), b)
}

fn scene(b: &B) -> SceneSpec {
    let B::Tiles { w, h, spp, cam, bg, path, halves, posts, strat, .. } = b else { unreachable!() };
    let (llc, horiz, vert) = view_rect(cam, *w, *h);
    let w1 = (*w as f64 - 1.0).max(1.0);
    let h1 = (*h as f64 - 1.0).max(1.0);
    let mut objs = vec![];
    for y in 0..*h {
        for x in 0..*w {
            for (k, half) in halves[(*h - 1 - y) * *w + x].iter().enumerate() {
                let mat = match half {
                    Half::Nothing => continue,
                    Half::Light(c) => Mat::Light { rgb: *c, half: None },
                    Half::Matte(c, n) => Mat::Lambert { tex: Tex::Solid(*c), bump: n.map(|n| Tex::Image(ImgSpec { w: 1, h: 1, px: vec![n] })) },
                };
                objs.push(Obj::Quad { q: arr(llc + horiz * ((x as f64 + 0.5 * k as f64) / w1) + vert * (y as f64 / h1)), u: arr(horiz * (0.5 / w1)), v: arr(vert * (1.0 / h1)), mat, xf: vec![] });
            }
        }
    }
    // a light that is never seen
    let back = v3(cam.from) - v3(cam.at);
    objs.push(Obj::Sphere { c: arr(v3(cam.from) + back * 3.0), r: 0.5 * back.length(), mat: Mat::Light { rgb: [0.5, 0.5, 0.5], half: None } });
    SceneSpec { objs, cam: cam.clone(), bg: *bg, w: *w, h: *h, spp: *spp, shader: if *path { Sh::Path(1) } else { Sh::Albedo }, posts: posts.clone(), strat: strat.clone() }
}

/// Colour, albedo and normal along a ray when every draw is `c`.
fn look(w: &World, s: &SceneSpec, ray: &model::Ray, c: f64) -> ([P; 3], bool) {
    let mut amb = false;
    let mut d = Draw::Const(c);
    let v = match w.look(ray, &mut d, &mut amb) {
        None => [w.bg, w.bg, P::default()],
        Some(h) => [w.shade(&s.shader, ray, &h, &mut d, &mut amb), w.albedo(&h, &mut Draw::Const(c), &mut amb), h.n],
    };
    (v, amb)
}

fn gamma(v: f64) -> f64 {
    v.max(0.0).sqrt().min(0.999)
}

fn near(got: f32, want: f64, tol: f64) -> bool {
    (got as f64 - want).abs() <= tol || (want >= 0.998 && (0.998..=1.0).contains(&(got as f64)))
}

type Bufs = [Vec<f32>; 3];
const NAMES: [&str; 3] = ["colour", "albedo", "normal"];

/// The three buffers of a call, if they are all there and of the right size.
fn bufs(c: &oidn::Call, w: usize, h: usize) -> Result<Bufs, String> {
    if (c.width, c.height) != (w, h) {
        return Err(format!("told {}x{} pixels for an image of {w}x{h}", c.width, c.height));
    }
    let b = [c.color.clone(), c.albedo.clone().ok_or("no albedo given")?, c.normal.clone().ok_or("no normals given")?];
    for (n, v) in NAMES.iter().zip(&b) {
        if v.len() != w * h * 3 {
            return Err(format!("{} values of {n} for {w}x{h} pixels", v.len()));
        }
        if v.iter().any(|x| !x.is_finite()) {
            return Err(format!("{n} holds values that are not finite"));
        }
    }
    Ok(b)
}

/// The reported image is the denoiser's answer.
fn shown(img: &Img, c: &[f32], w: usize, h: usize) -> Result<(), String> {
    if (img.w as usize, img.h as usize) != (w, h) {
        return Err(format!("image of {}x{}", img.w, img.h));
    }
    for (i, v) in c.iter().enumerate() {
        let o = (1.0 - *v * 0.5) as f64 * 256.0;
        let (lo, hi) = ((o - 0.01).clamp(0.0, 255.0) as u8, (o + 0.01).clamp(0.0, 255.0) as u8);
        if !(lo..=hi).contains(&img.px[i]) {
            return Err(format!("pixel ({},{}) of the image is {} in channel {}, the denoiser answered {}", i / 3 % w, i / 3 / w, img.px[i], i % 3, o / 256.0));
        }
    }
    Ok(())
}

fn forget() {
    oidn::CALLS.lock().unwrap().clear();
}

fn told(f: &[usize], d: &[usize]) {
    *oidn::FAIL_FILTER.lock().unwrap() = f.to_vec();
    *oidn::FAIL_DEVICE.lock().unwrap() = d.to_vec();
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    assert!(cfg!(feature = "oidn"), "C11 needs the build with the denoiser feature");
    simrt::start(sim, fin);
    match b {
        B::Direct { w, h, seed, samples, filter, device } => direct(*w, *h, *seed, *samples, *filter, *device, out),
        B::Scene { s, c } => whole(s, model::eff(*c), out),
        B::Tiles { .. } => tiles(b, out),
    }
    no_stray_panics(out);
}

fn direct(w: usize, h: usize, seed: u64, samples: u32, filter: bool, device: bool, out: &mut RunOut) {
    let mut r = Rng::new(seed);
    let k = samples as f64;
    let mut buf = |lo: f64, hi: f64| -> Vec<V> { (0..w * h).map(|_| if r.chance(0.05) { [0.0; 3] } else { [r.range(lo, hi), r.range(lo, hi), r.range(lo, hi)] }).collect() };
    let (c, a, n) = (buf(0.0, 1.5), buf(0.0, 1.0), buf(-1.0, 1.0));
    let sum = |v: &[V]| v.iter().map(|x| v3(*x) * k).collect::<Vec<_>>();
    let f = |b: bool| if b { vec![1] } else { vec![] };
    told(&f(filter), &f(device));
    forget();
    let post = Post::Oidn.real();
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| post.post_process(&sum(&c), &sum(&a), &sum(&n), w as u32, h as u32, samples).map_err(|e| e.to_string())));
    out.probe("checked", 1);
    let img = match got {
        Err(_) => return out.fail("panic", format!("the denoiser processor panicked: {}", take_panics().join(" | "))),
        Ok(Err(_)) if filter || device => {
            out.probe("denoiser_failures", 1);
            return;
        }
        Ok(Ok(_)) if filter || device => return out.fail("failure-ignored", format!("the denoiser failed (filter {filter}, device {device}), yet an image came back")),
        Ok(Err(e)) => return out.fail("denoise-error", format!("refused: {e}")),
        Ok(Ok(i)) => Img { w: i.width(), h: i.height(), px: i.into_raw() },
    };
    let calls = oidn::CALLS.lock().unwrap().clone();
    if calls.len() != 1 {
        return out.fail("calls", format!("the denoiser was called {} times for one image", calls.len()));
    }
    match bufs(&calls[0], w, h) {
        Err(e) => out.fail("buffers", e),
        Ok(b) => {
            for (j, want) in [&c, &a, &n].into_iter().enumerate() {
                for i in 0..w * h * 3 {
                    let v = want[i / 3][i % 3];
                    let v = if j < 2 { gamma(v) } else { v };
                    if !near(b[j][i], v, 1e-5) {
                        return out.fail("buffers", format!("{} of pixel ({},{}) channel {} is {}, should be {v} ({samples} samples)", NAMES[j], i / 3 % w, i / 3 / w, i % 3, b[j][i]));
                    }
                }
            }
            if let Err(e) = shown(&img, &b[0], w, h) {
                out.fail("image", e);
            }
        }
    }
}

/// The calls of one render, matched with its reported images.
fn calls_of(o: &RenderOut, w: usize, h: usize, out: &mut RunOut) -> Option<Vec<(u32, Bufs)>> {
    let calls = oidn::CALLS.lock().unwrap().clone();
    let images: Vec<_> = o.reports.iter().enumerate().filter_map(|(i, r)| r.img.as_ref().map(|m| (i as u32 + 1, m))).collect();
    if calls.len() != images.len() {
        out.fail("calls", format!("{} calls of the denoiser for {} reported images", calls.len(), images.len()));
        return None;
    }
    let mut v = vec![];
    for (c, (k, img)) in calls.iter().zip(images) {
        match bufs(c, w, h) {
            Err(e) => {
                out.fail("buffers", format!("image after {k} samples: {e}"));
                return None;
            }
            Ok(b) => {
                if let Err(e) = shown(img, &b[0], w, h) {
                    out.fail("image", format!("image after {k} samples: {e}"));
                    return None;
                }
                v.push((k, b));
            }
        }
    }
    Some(v)
}

fn real_world(s: &SceneSpec, out: &mut RunOut) -> Option<(Renderer, Vec<usize>)> {
    let world = Bvh::new(s.objs.iter().flat_map(|o| o.real()).collect::<Vec<Hittables>>());
    match Renderer::new(s.with_world(world)) {
        Err(e) => {
            out.fail("render-error", format!("a scene with a light was refused: {e}"));
            None
        }
        Ok(r) => {
            let leaves = model::flatten(&s.objs);
            match model::lights_in_order(&leaves, &r.lights) {
                Some(l) => Some((r, l)),
                None => {
                    out.fail("lights", "the renderer's lights are not those of the scene");
                    None
                }
            }
        }
    }
}

fn whole(s: &SceneSpec, c: f64, out: &mut RunOut) {
    told(&[], &[]);
    forget();
    let (w, h) = (s.w, s.h);
    let Some((r, lights)) = real_world(s, out) else { return };
    let world = World { leaves: model::flatten(&s.objs), lights, bg: p(s.bg) };
    let o = run_one(Job { target: Target::Renderer(Arc::new(r)), abort: AbortPlan::Never, recv: RecvPlan::Drain });
    if !must_be_ok(out, "the render", &o.end) {
        return;
    }
    let Some(calls) = calls_of(&o, w, h, out) else { return };
    if o.reports.last().is_none_or(|r| r.img.is_none()) {
        out.fail("no-final-image", "the last report carries no image");
    }
    for y in 0..h {
        for x in 0..w {
            let u = ((x as f64 + c) / (w as f64 - 1.0).max(1.0)) as f32 as f64;
            let v = (((h - 1 - y) as f64 + c) / (h as f64 - 1.0).max(1.0)) as f32 as f64;
            let ray = model::cam_ray(&s.cam, w, h, u, v, (0.0, 0.0));
            let mut want = [None; 3];
            for (j, t) in want.iter_mut().enumerate() {
                *t = model::stable(&ray, 2e-7, 1e-4, &|q| {
                    let (v, amb) = look(&world, s, q, c);
                    (v[j], amb)
                });
            }
            for (k, b) in &calls {
                for j in 0..3 {
                    let Some(t) = want[j] else {
                        out.probe("values_not_judged", 1);
                        continue;
                    };
                    out.probe("checked", 1);
                    out.probe("scene_pixels", 1);
                    for (m, v) in t.arr().into_iter().enumerate() {
                        // fog has no normal of its own; negative values show nothing
                        if !v.is_finite() {
                            continue;
                        }
                        let got = b[j][(y * w + x) * 3 + m];
                        let e = 2e-4 * (1.0 + v.abs());
                        let ok = if j == 2 { near(got, v, e) } else { got as f64 >= gamma(v - e) - 1e-5 && got as f64 <= gamma(v + e) + 1e-3 * (v + e > 0.99) as u32 as f64 + 1e-5 };
                        if !ok {
                            return out.fail("buffers", format!("{:?}: {} of pixel ({x},{y}) after {k} samples is {got} in channel {m}, should be {} (every draw {c})", s.shader, NAMES[j], if j == 2 { v } else { gamma(v) }));
                        }
                    }
                }
            }
        }
    }
}

fn tiles(b: &B, out: &mut RunOut) {
    let B::Tiles { w, h, posts, filter, device, reuse, .. } = b else { unreachable!() };
    let (w, h) = (*w, *h);
    let s = scene(b);
    told(filter, device);
    let Some((r, lights)) = real_world(&s, out) else { return };
    let r = Arc::new(r);
    let world = World { leaves: model::flatten(&s.objs), lights, bg: p(s.bg) };
    let misplaced = posts[..posts.len() - 1].contains(&Post::Oidn);
    for _ in 0..*reuse {
        forget();
        let o = run_one(Job { target: Target::Renderer(r.clone()), abort: AbortPlan::Never, recv: RecvPlan::Drain });
        out.probe("checked", 1);
        let calls = oidn::CALLS.lock().unwrap().len();
        let failed = (1..=calls).find(|n| filter.contains(n) || device.contains(n));
        if misplaced || failed.is_some() {
            out.probe(if misplaced { "misplaced" } else { "denoiser_failures" }, 1);
            let why = if misplaced { "the denoiser is not the last processor".to_string() } else { format!("the denoiser failed at image {}", failed.unwrap()) };
            match &o.end {
                End::Err(_) => {}
                End::Panic(e) => return out.fail("panic", format!("{why}: the render panicked: {e}")),
                e => return out.fail("failure-ignored", format!("{why}, yet the render ended with {e:?}")),
            }
            let images = o.reports.iter().filter(|r| r.img.is_some()).count();
            if images > failed.map_or(0, |n| n - 1) {
                return out.fail("failure-ignored", format!("{why}, yet {images} images were reported"));
            }
            if calls > failed.unwrap_or(0) {
                return out.fail("failure-ignored", format!("{why}, yet the denoiser was called {calls} times"));
            }
            continue;
        }
        if !must_be_ok(out, "the render", &o.end) {
            return;
        }
        if o.reports.last().is_none_or(|r| r.img.is_none()) {
            return out.fail("no-final-image", "the last report carries no image");
        }
        let Some(calls) = calls_of(&o, w, h, out) else { return };
        // what the two halves show
        let mut halves: Vec<[[V; 3]; 2]> = vec![];
        for y in 0..h {
            for x in 0..w {
                let at = |f: f64| {
                    let u = (x as f64 + f) / (w as f64 - 1.0).max(1.0);
                    let v = ((h - 1 - y) as f64 + 0.5) / (h as f64 - 1.0).max(1.0);
                    look(&world, &s, &model::cam_ray(&s.cam, w, h, u, v, (0.0, 0.0)), 0.4).0.map(|p| p.arr())
                };
                halves.push([at(0.25), at(0.75)]);
            }
        }
        let bloomed = if posts.iter().any(|p| matches!(p, Post::Bloom { .. })) {
            let mean: Vec<V> = halves.iter().map(|h| h[0][0]).collect();
            match pixels::chain(&mean, w, h, &posts[..posts.len() - 1]) {
                None => {
                    out.probe("inconclusive", 1);
                    return;
                }
                x => x,
            }
        } else {
            None
        };
        let mut last: Option<(u32, Vec<(u32, u32)>)> = None;
        for (k, bufs) in &calls {
            let mut ms = vec![];
            for i in 0..w * h {
                let fits = |m: u32| {
                    let f = m as f64 / *k as f64;
                    for j in 0..3 {
                        for c in 0..3 {
                            let mut v = halves[i][0][j][c] * (1.0 - f) + halves[i][1][j][c] * f;
                            if let (0, Some(t)) = (j, &bloomed) {
                                v = t[i][c];
                            }
                            // square roots are steep near nothing
                            let ok = if j < 2 { near(bufs[j][i * 3 + c], gamma(v), 2e-5 + 1e-8 / v.max(1e-6).sqrt()) } else { near(bufs[j][i * 3 + c], v, 2e-5) };
                            if !ok {
                                return Some((j, c, bufs[j][i * 3 + c], if j < 2 { gamma(v) } else { v }));
                            }
                        }
                    }
                    None
                };
                let ok: Vec<u32> = (0..=*k).filter(|m| fits(*m).is_none()).collect();
                let Some(lo) = ok.first() else {
                    let (j, c, got, want) = fits(0).unwrap();
                    let all = (0..3).map(|j| format!("{} {:?}", NAMES[j], &bufs[j][i * 3..i * 3 + 3])).collect::<Vec<_>>().join(", ");
                    return out.fail("buffers", format!("image after {k} samples, pixel ({},{}): {all} cannot come from {k} samples of its halves, colour/albedo/normal {:?} and {:?} (first half alone: {} {c} is {got}, would be {want})", i % w, i / w, halves[i][0], halves[i][1], NAMES[j]));
                };
                ms.push((*lo, *ok.last().unwrap()));
            }
            if let Some((k0, m0)) = &last {
                for (i, (a, b)) in m0.iter().zip(&ms).enumerate() {
                    if b.1 < a.0 || b.0 > a.1 + (k - k0) {
                        return out.fail("history", format!("pixel ({},{}): {}-{} of {k0} samples in the second half, then {}-{} of {k}", i % w, i / w, a.0, a.1, b.0, b.1));
                    }
                }
            }
            out.probe("images", 1);
            out.probe("checked", 1);
            last = Some((*k, ms));
        }
    }
}

pub fn shrink(b: &B) -> Vec<B> {
    let mut v = vec![];
    match b {
        B::Direct { w, h, seed, samples, filter, device } => {
            let mk = |w: usize, h: usize, samples: u32| B::Direct { w, h, seed: *seed, samples, filter: *filter, device: *device };
            if *w > 1 {
                v.push(mk(1, *h, *samples));
            }
            if *h > 1 {
                v.push(mk(*w, 1, *samples));
            }
            if *samples > 1 {
                v.push(mk(*w, *h, 1));
            }
        }
        B::Scene { s, c } => v.extend(scenes::shrink(s).into_iter().filter(|s| s.has_light() && !s.posts.is_empty()).map(|s| B::Scene { s, c: *c })),
        B::Tiles { w, h, spp, cam, bg, path, halves, posts, strat, filter, device, reuse } => {
            let mk = |w: usize, h: usize, spp: u32, cam: &Cam, halves: Vec<[Half; 2]>, posts: Vec<Post>, reuse: u32| B::Tiles {
                w,
                h,
                spp,
                cam: cam.clone(),
                bg: *bg,
                path: *path,
                halves,
                posts,
                strat: strat.clone(),
                filter: filter.clone(),
                device: device.clone(),
                reuse,
            };
            for w2 in [1, *w - 1] {
                if w2 >= 1 && w2 < *w {
                    v.push(mk(w2, *h, *spp, cam, (0..w2 * h).map(|i| halves[i / w2 * w + i % w2].clone()).collect(), posts.clone(), *reuse));
                }
            }
            for h2 in [1, *h - 1] {
                if h2 >= 1 && h2 < *h {
                    v.push(mk(*w, h2, *spp, cam, halves[..w * h2].to_vec(), posts.clone(), *reuse));
                }
            }
            if *spp > 1 {
                v.push(mk(*w, *h, 1, cam, halves.clone(), posts.clone(), *reuse));
                v.push(mk(*w, *h, *spp - 1, cam, halves.clone(), posts.clone(), *reuse));
            }
            for i in 0..posts.len() - 1 {
                let mut q = posts.clone();
                q.remove(i);
                v.push(mk(*w, *h, *spp, cam, halves.clone(), q, *reuse));
            }
            if *reuse > 1 {
                v.push(mk(*w, *h, *spp, cam, halves.clone(), posts.clone(), 1));
            }
            if *cam != simple_cam() {
                v.push(mk(*w, *h, *spp, &simple_cam(), halves.clone(), posts.clone(), *reuse));
            }
        }
    }
    v
}

