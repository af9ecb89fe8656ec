//! Shading follows the documented light transport for any given random outcomes.
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::RunOut;
use crate::model::{self, of, p, Draw, Ray, Surface, World, P};
use crate::pixels;
use crate::prng::Rng;
use crate::render::*;
use crate::scenes;
use crate::spec::*;
use crate::swarm;
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};
use solstrale::hittable::{Bvh, Hittable, Hittables};
use solstrale::material::{Material, RayScatter};
use solstrale::renderer::shader::Shader;
use solstrale::renderer::Renderer;
use solstrale::util::interval::RAY_INTERVAL;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    /// Colours found along rays when every draw is `c`.
    Shade { s: SceneSpec, rays: u32, ray_seed: u64, c: f64 },
    /// Whole images when every draw is `c`.
    Image { s: SceneSpec, c: f64 },
    /// Single scatterings under arbitrary draws, judged by their result.
    Scatter { s: SceneSpec, rays: u32, ray_seed: u64 },
    /// Mean colour along a ray under arbitrary draws against the reference's mean.
    Mean { s: SceneSpec, ray_seed: u64, n: u32 },
}

pub const RULE: &str = "Four kinds of runs over random scenes of every object, material, texture, bump map and light: colours found along single rays and whole images with every random draw set to one drawn value (exact comparison with a reference path tracer), single scatterings under arbitrary draws (colour, density weight and direction recomputed from the direction that came back), and the mean colour over thousands of arbitrary draws against the reference's mean within a Bernstein bound. Worlds and images are built under preempting schedules. Rays whose result changes under a perturbation of 1e-9 are not judged.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 40000;

pub fn bumps_ok(o: &Obj) -> bool {
    // a bump map needs texture coordinates on a triangle
    fn has_bump(m: &Mat) -> bool {
        match m {
            Mat::Lambert { bump, .. } | Mat::Metal { bump, .. } | Mat::Glass { bump, .. } => bump.is_some(),
            Mat::Blend { a, b, .. } => has_bump(a) || has_bump(b),
            _ => false,
        }
    }
    match o {
        Obj::Tri { uv: None, mat, .. } => !has_bump(mat),
        Obj::Group(l) => l.iter().all(bumps_ok),
        _ => true,
    }
}

fn scene(r: &mut Rng) -> SceneSpec {
    loop {
        let fog = r.chance(0.5);
        let mut s = scenes::scene(r, &scenes::Opts { w: 7, h: 7, spp: 3, objs: 8, fog, posts: false, depth: 7 });
        s.cam.aperture = 0.0;
        s.strat = Strat::Every;
        // a room around everything makes paths long
        if r.chance(0.4) {
            let mut k = v3(s.cam.at).length().max(v3(s.cam.from).length()) + 6.0;
            if r.chance(0.15) {
                // or a sky
                k = r.log(100.0, 1e7);
            }
            let m = scenes::mat(r, 1);
            s.objs.push(Obj::Box { a: [-k, -k, -k], b: [k, k, k], mat: m, xf: vec![] });
        }
        if s.objs.iter().all(bumps_ok) {
            return s;
        }
    }
}

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    let s = scene(r);
    let c = model::gen_const(r);
    let b = match r.below(20) {
        0..=8 => B::Shade { s, rays: r.int(5, 30) as u32, ray_seed: r.u64(), c },
        9..=12 => B::Image { s, c },
        13..=18 => B::Scatter { s, rays: r.int(10, 60) as u32, ray_seed: r.u64() },
        _ => B::Mean { s, ray_seed: r.u64(), n: 5000 },
    };
    sim.rng = match b {
        B::Shade { .. } | B::Image { .. } => RngMode::Const { c },
        _ => RngMode::Uniform,
    };
    if let B::Mean { .. } = b {
        sim.max_edges = 1_000_000_000;
    }
    (sim, swarm::threads(r), b)
}

/// A ray from somewhere towards some object or anywhere.
pub fn a_ray(r: &mut Rng, w: &World) -> Ray {
    let l = &w.leaves[r.below(w.leaves.len() as u64) as usize];
    let (lo, hi) = l.bbox();
    let t = P::new(r.range(lo.x, hi.x), r.range(lo.y, hi.y), r.range(lo.z, hi.z));
    let dir = p(scenes::place(r, [0.0; 3], 1.0)).unit();
    let o = t - dir * r.log(0.3, 15.0);
    Ray { o, d: dir * r.log(0.2, 8.0) }
}

struct Setup {
    world: Hittables,
    renderer: Renderer,
}

fn setup(s: &SceneSpec) -> Result<Setup, String> {
    let list: Vec<Hittables> = s.objs.iter().flat_map(|o| o.real()).collect();
    let world = Bvh::new(list);
    let renderer = Renderer::new(s.with_world(world.clone())).map_err(|e| e.to_string())?;
    Ok(Setup { world, renderer })
}

fn shade_real(st: &Setup, s: &SceneSpec, r: &Ray, depth: u32, acc: f64) -> Option<P> {
    let real = solstrale::geo::Ray::new(r.o.v(), r.d.v());
    let rec = st.world.hit(&real, &RAY_INTERVAL)?;
    Some(of(s.shader.real().shade(&st.renderer, &rec, &real, depth, acc).get_attenuated_color()))
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    match b {
        B::Shade { s, rays, ray_seed, c } => shade(s, *rays, *ray_seed, model::eff(*c), out),
        B::Image { s, c } => image(s, model::eff(*c), out),
        B::Scatter { s, rays, ray_seed } => scatter(s, *rays, *ray_seed, out),
        B::Mean { s, ray_seed, n } => mean(s, *ray_seed, *n, out),
    }
    no_stray_panics(out);
}

fn world<'a>(s: &'a SceneSpec, lights: &[Hittables], out: &mut RunOut) -> Option<World<'a>> {
    let leaves = model::flatten(&s.objs);
    match model::lights_in_order(&leaves, lights) {
        Some(l) => Some(World { leaves, lights: l, bg: p(s.bg) }),
        None => {
            out.fail("lights", "the renderer's lights are not those of the scene");
            None
        }
    }
}

fn shade(s: &SceneSpec, rays: u32, ray_seed: u64, c: f64, out: &mut RunOut) {
    let st = match setup(s) {
        Ok(x) => x,
        Err(e) => return out.fail("render-error", format!("a scene with lights was refused: {e}")),
    };
    let Some(w) = world(s, &st.renderer.lights, out) else { return };
    let mut r = Rng::new(ray_seed);
    for _ in 0..rays {
        let ray = a_ray(&mut r, &w);
        let (depth, acc) = if r.chance(0.8) { (0, 0.0) } else { (r.int(0, 8) as u32, r.log(0.1, 100.0)) };
        let f = |q: &Ray| {
            let mut amb = false;
            let mut d = Draw::Const(c);
            let v = match w.look(q, &mut d, &mut amb) {
                None => P::new(-1.0, -1.0, -1.0),
                Some(h) => match &s.shader {
                    Sh::Path(m) => w.trace_from(q, &h, depth, *m, acc, &mut d, &mut amb).seen(),
                    sh => w.shade(sh, q, &h, &mut d, &mut amb),
                },
            };
            (v, amb)
        };
        let Some(want) = model::stable(&ray, 1e-9, 1e-5, &f) else {
            out.probe("rays_not_judged", 1);
            continue;
        };
        let got = shade_real(&st, s, &ray, depth, acc).unwrap_or(P::new(-1.0, -1.0, -1.0));
        out.probe("checked", 1);
        out.probe("rays", 1);
        if (got - want).max_abs() > 1e-4 * (1.0 + want.max_abs()) || got.finite() != want.finite() {
            let near = w.look(&ray, &mut Draw::Const(c), &mut false).map(|h| h.leaf);
            out.fail("colour", format!("{:?}: ray from {:?} along {:?} (first object {near:?}, depth {depth}, length so far {acc}, every draw {c}): colour {:?}, should be {:?}", s.shader, ray.o.arr(), ray.d.arr(), got.arr(), want.arr()));
            return;
        }
    }
}

fn image(s: &SceneSpec, c: f64, out: &mut RunOut) {
    let (wd, ht) = (s.w, s.h);
    let st = match setup(s) {
        Ok(x) => x,
        Err(e) => return out.fail("render-error", format!("a scene with lights was refused: {e}")),
    };
    let Some(w) = world(s, &st.renderer.lights, out) else { return };
    let o = run_one(Job { target: Target::Renderer(std::sync::Arc::new(st.renderer)), abort: AbortPlan::Never, recv: RecvPlan::Drain });
    if !must_be_ok(out, "the render", &o.end) {
        return;
    }
    for y in 0..ht {
        for x in 0..wd {
            let u = ((x as f64 + c) / (wd as f64 - 1.0).max(1.0)) as f32 as f64;
            let v = (((ht - 1 - y) as f64 + c) / (ht as f64 - 1.0).max(1.0)) as f32 as f64;
            let ray = model::cam_ray(&s.cam, wd, ht, u, v, (0.0, 0.0));
            let f = |q: &Ray| {
                let mut amb = false;
                let mut d = Draw::Const(c);
                let v = match w.look(q, &mut d, &mut amb) {
                    None => w.bg,
                    Some(h) => w.shade(&s.shader, q, &h, &mut d, &mut amb),
                };
                (v, amb)
            };
            let Some(want) = model::stable(&ray, 2e-7, 1e-4, &f) else {
                out.probe("pixels_not_judged", 1);
                continue;
            };
            // fog has no normal of its own; negative values have no colour
            for (i, rep) in o.reports.iter().enumerate() {
                let Some(img) = &rep.img else { continue };
                if img.w as usize != wd || img.h as usize != ht {
                    return out.fail("image-size", format!("{}x{}", img.w, img.h));
                }
                out.probe("checked", 1);
                out.probe("pixels", 1);
                let got = img.at(x, y);
                for (k, v) in want.arr().into_iter().enumerate() {
                    if !v.is_finite() {
                        continue;
                    }
                    let e = 2e-4 * (1.0 + v.abs());
                    let (lo, hi) = (pixels::bytes(v - e).0, pixels::bytes(v + e).1);
                    if got[k] < lo || got[k] > hi {
                        return out.fail("pixel", format!("{:?}: pixel ({x},{y}) of sample {} is {:?}, should show {:?} (every draw {c})", s.shader, i + 1, got, want.arr()));
                    }
                }
            }
        }
    }
}

enum Judged {
    Yes,
    Unclear,
    No(String),
}

fn close(a: P, b: P, tol: f64) -> bool {
    (a - b).max_abs() <= tol * (1.0 + b.max_abs())
}

/// Could this scattering have come from this material?
fn judge(w: &World, m: &Mat, ray: &Ray, seen: &model::Seen, normal: P, sc: &RayScatter) -> Judged {
    let mut amb = false;
    let no = |s: String| Judged::No(s);
    if let Mat::Blend { a, b, .. } = m {
        return match judge(w, a, ray, seen, normal, sc) {
            Judged::No(x) => match judge(w, b, ray, seen, normal, sc) {
                Judged::No(y) => Judged::No(format!("neither: {x}; nor: {y}")),
                j => j,
            },
            j => j,
        };
    }
    match (m, sc) {
        (Mat::Light { rgb, half }, RayScatter::ScatterEmission(e)) => {
            let want = if seen.front { p(*rgb) } else { P::default() };
            if !close(of(e.color), want, 1e-9) {
                return no(format!("emits {:?}, should be {:?}", e.color, want.arr()));
            }
            let f = half.map(|h| 1.0 / h);
            match (e.attenuation_factor, f) {
                (None, None) => Judged::Yes,
                (Some(a), Some(b)) if (a - b).abs() < 1e-9 * b => Judged::Yes,
                (a, b) => no(format!("attenuation factor {a:?}, should be {b:?}")),
            }
        }
        (Mat::Lambert { tex, .. }, RayScatter::ScatterPdf(k)) => {
            let c = model::texel(tex, seen.cut.uv, &mut amb);
            let d = of(k.ray.direction);
            let prob = w.matte_prob(seen.at, normal, d, &mut amb);
            let up = d.unit().dot(normal.unit());
            let lp = w.lights_pdf(seen.at, d, &mut amb);
            if amb {
                return Judged::Unclear;
            }
            if !close(of(k.color), c, 1e-9) {
                return no(format!("colour {:?}, should be {:?}", k.color, c.arr()));
            }
            if !close(of(k.ray.origin), seen.at, 1e-7) {
                return no(format!("scattered from {:?} instead of {:?}", k.ray.origin, seen.at.arr()));
            }
            if up < -1e-9 && lp == 0.0 {
                return no(format!("direction {:?} is below the surface and towards no light", d.arr()));
            }
            if (k.probability - prob).abs() > 1e-6 * (1.0 + prob) {
                return no(format!("weight {} for direction {:?}, should be {prob}", k.probability, d.arr()));
            }
            Judged::Yes
        }
        (Mat::Metal { tex, fuzz, .. }, RayScatter::ScatterBasic(k)) => {
            let c = model::texel(tex, seen.cut.uv, &mut amb);
            if amb {
                return Judged::Unclear;
            }
            let want = model::reflect(ray.d.unit(), normal);
            let off = (of(k.ray.direction) - want).len();
            if off > fuzz * (1.0 + 1e-9) + 1e-7 {
                return no(format!("reflected along {:?}, {off} away from {:?} with fuzz {fuzz}", k.ray.direction, want.arr()));
            }
            if !close(of(k.color), c, 1e-9) || !close(of(k.ray.origin), seen.at, 1e-7) {
                return no(format!("colour {:?} from {:?}", k.color, k.ray.origin));
            }
            Judged::Yes
        }
        (Mat::Glass { tex, ior, .. }, RayScatter::ScatterBasic(k)) => {
            let c = model::texel(tex, seen.cut.uv, &mut amb);
            let (can, _, a, b) = model::glass(ray.d, normal, seen.front, *ior, &mut amb);
            if amb {
                return Judged::Unclear;
            }
            let d = of(k.ray.direction);
            if !(close(d, a, 1e-6) || (can && close(d, b, 1e-5))) {
                return no(format!("glass sent the ray along {:?}, neither {:?} nor {:?}", d.arr(), a.arr(), b.arr()));
            }
            if !close(of(k.color), c, 1e-9) || !close(of(k.ray.origin), seen.at, 1e-7) {
                return no(format!("colour {:?} from {:?}", k.color, k.ray.origin));
            }
            Judged::Yes
        }
        _ => no("another kind of scattering".into()),
    }
}

fn normals(m: &Mat, seen: &model::Seen, facing: P, amb: &mut bool, v: &mut Vec<P>) {
    match m {
        Mat::Blend { a, b, .. } => {
            normals(a, seen, facing, amb, v);
            normals(b, seen, facing, amb, v);
        }
        m => v.push(model::shading_normal(m, &seen.cut, facing, &mut Draw::Const(0.3), amb)),
    }
}

fn scatter(s: &SceneSpec, rays: u32, ray_seed: u64, out: &mut RunOut) {
    let st = match setup(s) {
        Ok(x) => x,
        Err(e) => return out.fail("render-error", format!("a scene with lights was refused: {e}")),
    };
    let Some(mut w) = world(s, &st.renderer.lights, out) else { return };
    let all = w.leaves.clone();
    // Fog is where it is by chance: find the surface behind it first.
    w.leaves.iter_mut().for_each(|l| {
        if let model::Shape::Fog { density, .. } = &mut l.shape {
            *density = 1e-300;
        }
    });
    let mut r = Rng::new(ray_seed);
    for _ in 0..rays {
        let ray = a_ray(&mut r, &w);
        let real = solstrale::geo::Ray::new(ray.o.v(), ray.d.v());
        let mut amb = false;
        let seen = w.look(&ray, &mut Draw::Const(0.3), &mut amb);
        if amb {
            continue;
        }
        for _ in 0..4 {
            let Some(rec) = st.world.hit(&real, &RAY_INTERVAL) else { continue };
            let sc = rec.material.scatter(&real, &rec, &st.renderer.lights);
            if format!("{:?}", rec.material).starts_with("Isotropic") {
                let RayScatter::ScatterPdf(k) = &sc else {
                    return out.fail("scatter", "fog does not scatter by a density".to_string());
                };
                let mut amb = false;
                let d = of(k.ray.direction);
                let at = of(rec.hit_point);
                let e = 1.0 / (4.0 * std::f64::consts::PI);
                let want = e / (0.5 * w.lights_pdf(at, d, &mut amb) + 0.5 * e);
                let known = all.iter().any(|l| matches!(&l.shape, model::Shape::Fog { rgb, .. } if close(of(k.color), *rgb, 1e-12)));
                if amb {
                    continue;
                }
                out.probe("checked", 1);
                out.probe("fog_scatterings", 1);
                if (k.probability - want).abs() > 1e-6 * (1.0 + want) || !known {
                    return out.fail("scatter", format!("fog scattered along {:?} with weight {} and colour {:?}, weight should be {want}", d.arr(), k.probability, k.color));
                }
                continue;
            }
            let Some(seen) = &seen else { continue };
            let Surface::Mat(m) = seen.what else { continue };
            if (rec.ray_length - seen.t).abs() > 1e-7 * (1.0 + seen.t) {
                return out.fail("hit", format!("hit at {} instead of {}", rec.ray_length, seen.t));
            }
            let mut amb = false;
            let mut ns = vec![];
            let facing = if seen.front { seen.cut.n } else { -seen.cut.n };
            normals(m, seen, facing, &mut amb, &mut ns);
            if amb {
                continue;
            }
            let n = of(rec.normal);
            if !ns.iter().any(|k| close(n, *k, 1e-6)) {
                return out.fail("normal", format!("normal {:?} at {:?}, should be one of {:?}", n.arr(), seen.at.arr(), ns.iter().map(|n| n.arr()).collect::<Vec<_>>()));
            }
            match judge(&w, m, &ray, seen, n, &sc) {
                Judged::Unclear => out.probe("scatterings_not_judged", 1),
                Judged::Yes => {
                    out.probe("checked", 1);
                    out.probe("scatterings", 1);
                }
                Judged::No(e) => return out.fail("scatter", format!("{m:?} hit at {:?} from {:?}: {e}", seen.at.arr(), ray.o.arr())),
            }
        }
    }
}

fn mean(s: &SceneSpec, ray_seed: u64, n: u32, out: &mut RunOut) {
    let sh = if matches!(s.shader, Sh::Path(_)) { s.shader.clone() } else { Sh::Path(4) };
    let s2 = SceneSpec { shader: sh.clone(), ..s.clone() };
    let st = match setup(&s2) {
        Ok(x) => x,
        Err(e) => return out.fail("render-error", format!("a scene with lights was refused: {e}")),
    };
    let Some(w) = world(s, &st.renderer.lights, out) else { return };
    let mut r = Rng::new(ray_seed);
    let mut ray = a_ray(&mut r, &w);
    for _ in 0..30 {
        // something that is not a light right away
        let mut amb = false;
        match w.look(&ray, &mut Draw::Const(0.3), &mut amb) {
            Some(h) if !amb && !matches!(h.what, Surface::Mat(Mat::Light { .. })) => break,
            _ => ray = a_ray(&mut r, &w),
        }
    }
    let nref = 4 * n;
    let (mut sum, mut sq, mut top) = (P::default(), P::default(), P::default());
    let mut add = |v: P, sum: &mut P, sq: Option<&mut P>| {
        *sum = *sum + v;
        if let Some(q) = sq {
            *q = *q + v.times(v);
        }
        top = P::new(top.x.max(v.x), top.y.max(v.y), top.z.max(v.z));
    };
    let mut rr = Rng::new(ray_seed ^ 0x0dd);
    let mut unsure = 0u32;
    for _ in 0..nref {
        let mut amb = false;
        let mut d = Draw::Rng(&mut rr);
        let v = match w.look(&ray, &mut d, &mut amb) {
            None => w.bg,
            Some(h) => w.shade(&sh, &ray, &h, &mut d, &mut amb),
        };
        if !v.finite() {
            return out.probe("mean_not_judged", 1);
        }
        unsure += amb as u32;
        add(v, &mut sum, Some(&mut sq));
    }
    // paths that hang on rounding: too many, or as much as they can make up
    let hung = unsure as f64 / nref as f64;
    if hung > 0.01 {
        return out.probe("mean_not_judged", 1);
    }
    let want = sum * (1.0 / nref as f64);
    let var = sq * (1.0 / nref as f64) - want.times(want);
    let mut got = P::default();
    for _ in 0..n {
        let v = shade_real(&st, &s2, &ray, 0, 0.0).unwrap_or(w.bg);
        if !v.finite() {
            return out.fail("not-finite", format!("colour {:?} along a ray from {:?}", v.arr(), ray.o.arr()));
        }
        add(v, &mut got, None);
    }
    let got = got * (1.0 / n as f64);
    out.probe("checked", 1);
    out.probe("means", 1);
    for (k, ((g, w), (v, b))) in got.arr().into_iter().zip(want.arr()).zip(var.arr().into_iter().zip(top.arr())).enumerate() {
        // Bernstein: beyond this with probability below 1e-10 for either sample
        let l = 24.0;
        let bound = |m: f64| {
            let a = b * 1.5 * l / (3.0 * m);
            a + (a * a + 2.0 * l * (v.max(0.0) + 1e-12) * 1.2 / m).sqrt()
        };
        let tol = bound(n as f64) + bound(nref as f64) + 2.0 * hung * b + 1e-9;
        out.probe(if tol < 0.1 * w { "means_within_10_percent" } else { "means_coarser" }, 1);
        if (g - w).abs() > tol {
            return out.fail("mean", format!("{sh:?}: mean of {n} colours along a ray from {:?} along {:?}: channel {k} is {g}, should be {w} (+-{tol})", ray.o.arr(), ray.d.arr()));
        }
    }
}

pub fn shrink(b: &B) -> Vec<B> {
    match b {
        B::Shade { s, rays, ray_seed, c } => {
            let mut v: Vec<B> = scenes::shrink(s).into_iter().filter(|s| s.has_light()).map(|s| B::Shade { s, rays: *rays, ray_seed: *ray_seed, c: *c }).collect();
            if *rays > 1 {
                v.insert(0, B::Shade { s: s.clone(), rays: rays / 2, ray_seed: *ray_seed, c: *c });
                v.push(B::Shade { s: s.clone(), rays: rays - 1, ray_seed: *ray_seed, c: *c });
            }
            v
        }
        B::Image { s, c } => scenes::shrink(s).into_iter().filter(|s| s.has_light()).map(|s| B::Image { s, c: *c }).collect(),
        B::Scatter { s, rays, ray_seed } => {
            let mut v: Vec<B> = scenes::shrink(s).into_iter().filter(|s| s.has_light()).map(|s| B::Scatter { s, rays: *rays, ray_seed: *ray_seed }).collect();
            if *rays > 1 {
                v.insert(0, B::Scatter { s: s.clone(), rays: rays / 2, ray_seed: *ray_seed });
                v.push(B::Scatter { s: s.clone(), rays: rays - 1, ray_seed: *ray_seed });
            }
            v
        }
        B::Mean { s, ray_seed, n } => scenes::shrink(s).into_iter().filter(|s| s.has_light()).map(|s| B::Mean { s, ray_seed: *ray_seed, n: *n }).collect(),
    }
}
