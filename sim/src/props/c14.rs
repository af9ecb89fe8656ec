//! Whatever the random outcomes, light values stay finite and the render ends.
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::{take_panics, RunOut};
use crate::model::{self, of, p};
use crate::prng::Rng;
use crate::props::c15::a_ray;
use crate::render::*;
use crate::scenes::{self, at, place};
use crate::spec::*;
use crate::swarm;
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};
use solstrale::hittable::{Bvh, Hittable, Hittables};
use solstrale::renderer::shader::Shader;
use solstrale::renderer::Renderer;
use solstrale::util::interval::RAY_INTERVAL;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    /// Colours along rays, one by one.
    Rays { s: SceneSpec, rays: u32, again: u32, ray_seed: u64 },
    /// Whole renders.
    Image { s: SceneSpec },
    /// A closed room of mirrors, glass and fog, lit from nowhere: only the depth limit ends a path.
    Room { s: SceneSpec },
    /// Light that is only met after so many mirrors.
    Corridor { mirrors: u32, depth: u32, slope: f64, size: usize, lamp: bool },
}

pub const RULE: &str = "Random scenes of every object, material, texture and light, with deliberately awkward arrangements (coincident and touching surfaces, lights touching what they light, points inside of lights, nested glass, total reflection, black and white surfaces, tiny and huge objects) under random draws into which 0, values next to 0 and 1, one half and its neighbours are mixed, up to every draw; colours are judged one ray at a time and through the sums behind consecutive images of whole renders under preempting schedules. Closed rooms without light check that only the depth limit ends a path and that it does, corridors of mirrors that it does so exactly where it should.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 32000;

fn awkward(r: &mut Rng, o: &mut Vec<Obj>, c: V) {
    let white = |k: f64| Mat::Lambert { tex: Tex::Solid([k, k, k]), bump: None };
    let m = match r.below(5) {
        0 => white(1.0),
        1 => white(0.0),
        2 => Mat::Glass { tex: Tex::Solid([1.0; 3]), bump: None, ior: *r.pick(&[1.0, 1.5, 0.6, 2.4]) },
        3 => Mat::Metal { tex: Tex::Solid([1.0; 3]), bump: None, fuzz: *r.pick(&[0.0, 1.0]) },
        _ => scenes::mat(r, 1),
    };
    let s = r.log(0.05, 5.0);
    let q = |c: V, k: f64, mat: Mat| Obj::Quad { q: [c[0] - k, c[1], c[2] - k], u: [2.0 * k, 0.0, 0.0], v: [0.0, 0.0, 2.0 * k], mat, xf: vec![] };
    match r.below(9) {
        // a light lying in a surface, or just above it
        0 => {
            o.push(q(c, s, m));
            o.push(q(at(c, [0.0, *r.pick(&[0.0, 1e-9, 1e-4, 1e-3, 0.01]), 0.0]), s * 0.5, scenes::light(r)));
        }
        // a light sphere resting on a surface, or half inside of it
        1 => {
            o.push(q(c, s, m));
            let k = s * 0.3;
            o.push(Obj::Sphere { c: at(c, [0.0, *r.pick(&[0.0, k, k * 1.000001]), 0.0]), r: k, mat: scenes::light(r) });
        }
        // something inside of a light
        2 => {
            o.push(Obj::Sphere { c, r: s, mat: m });
            o.push(Obj::Sphere { c, r: s * r.range(1.01, 3.0), mat: scenes::light(r) });
        }
        // two of the same
        3 => {
            let l = if r.chance(0.5) { m.clone() } else { scenes::light(r) };
            let a = scenes::prim(r, c, s, m);
            let mut b = a.clone();
            match &mut b {
                Obj::Sphere { mat, .. } | Obj::Quad { mat, .. } | Obj::Tri { mat, .. } => *mat = l,
                _ => {}
            }
            o.push(a);
            o.push(b);
        }
        // a corner of two surfaces
        4 => {
            o.push(q(c, s, m.clone()));
            o.push(Obj::Quad { q: [c[0] - s, c[1], c[2] - s], u: [0.0, 2.0 * s, 0.0], v: [0.0, 0.0, 2.0 * s], mat: m, xf: vec![] });
        }
        // glass in glass in fog
        5 => {
            o.push(Obj::Sphere { c, r: s, mat: m.clone() });
            o.push(Obj::Sphere { c, r: s * 0.7, mat: m.clone() });
            o.push(Obj::Fog { boundary: Box::new(Obj::Sphere { c, r: s * 1.5, mat: m }), density: r.log(0.01, 1000.0), rgb: [1.0, r.f(), 0.0] });
        }
        // a tiny light, a huge surface
        6 => {
            o.push(q(c, s * 100.0, m));
            let c = place(r, c, s);
            let k = s * r.log(1e-3, 0.1);
            let l = scenes::light(r);
            o.push(scenes::prim(r, c, k, l));
        }
        // surfaces a hair's breadth apart
        7 => {
            for k in 0..3 {
                o.push(q(at(c, [0.0, k as f64 * r.log(1e-6, 2e-3), 0.0]), s, m.clone()));
            }
        }
        // a sliver
        _ => {
            let d = r.log(1e-3, 0.05);
            o.push(Obj::Tri { p: [c, at(c, [s, 0.0, 0.0]), at(c, [s, d, 0.0])], uv: None, mat: if r.chance(0.4) { scenes::light(r) } else { m }, xf: vec![] });
        }
    }
}

fn scene(r: &mut Rng) -> SceneSpec {
    let mut s = scenes::scene(r, &scenes::Opts { w: 6, h: 6, spp: 8, objs: 4, fog: true, posts: false, depth: 30 });
    s.strat = Strat::Every;
    if r.chance(0.7) {
        s.shader = Sh::Path(r.log(1.0, 60.0) as u32);
    }
    let spread = (0.3 * v3(s.cam.at).length().max(1.0)).clamp(1.0, 3.0);
    for _ in 0..r.int(0, 3) {
        let c = place(r, s.cam.at, spread);
        awkward(r, &mut s.objs, c);
    }
    if r.chance(0.3) {
        let k = v3(s.cam.at).length().max(v3(s.cam.from).length()) + 6.0;
        let m = scenes::mat(r, 1);
        s.objs.push(Obj::Box { a: [-k, -k, -k], b: [k, k, k], mat: m, xf: vec![] });
    }
    s
}

/// A room of mirrors or of matte white, with the lights outside.
fn room(r: &mut Rng) -> SceneSpec {
    let mut s = scene(r);
    s.objs.clear();
    let c = s.cam.from;
    let d = (v3(s.cam.at) - v3(c)).length();
    let k = d * r.range(0.5, 3.0) + 0.5;
    for _ in 0..r.int(0, 4) {
        let at = place(r, c, k * 0.8);
        let m = match r.below(3) {
            0 => Mat::Glass { tex: Tex::Solid([1.0; 3]), bump: None, ior: r.range(1.0, 2.5) },
            1 => Mat::Metal { tex: Tex::Solid([1.0; 3]), bump: None, fuzz: 0.0 },
            _ => Mat::Lambert { tex: Tex::Solid([1.0; 3]), bump: None },
        };
        s.objs.push(if r.chance(0.3) { Obj::Fog { boundary: Box::new(Obj::Sphere { c: at, r: k * 0.3, mat: m }), density: r.log(0.1, 50.0) / k, rgb: [1.0; 3] } } else { Obj::Sphere { c: at, r: k * r.range(0.05, 0.3), mat: m } });
    }
    let m = if r.chance(0.6) { Mat::Metal { tex: Tex::Solid([1.0; 3]), bump: None, fuzz: *r.pick(&[0.0, 0.0, 0.2]) } } else { Mat::Lambert { tex: Tex::Solid([1.0; 3]), bump: None } };
    // walls overlap at their seams, so that nothing slips out between them
    let w = k * 1.3;
    for a in 0..3 {
        for sg in [-1.0, 1.0] {
            let mut q = c;
            let (b, e) = ((a + 1) % 3, (a + 2) % 3);
            q[a] += sg * k;
            q[b] -= w;
            q[e] -= w;
            let (mut u, mut v) = ([0.0; 3], [0.0; 3]);
            u[b] = 2.0 * w;
            v[e] = 2.0 * w;
            s.objs.push(Obj::Quad { q, u, v, mat: m.clone(), xf: vec![] });
        }
    }
    // The few paths that slip out at a seam end up in black, the lights are beyond.
    let b = k * 4.0;
    s.objs.push(Obj::Box { a: at(c, [-b; 3]), b: at(c, [b; 3]), mat: Mat::Lambert { tex: Tex::Solid([0.0; 3]), bump: None }, xf: vec![] });
    let dir = place(r, [0.0; 3], 1.0);
    let l = v3(dir).unit() * (k * 12.0);
    s.objs.push(Obj::Sphere { c: at(c, arr(l)), r: k * 0.5, mat: scenes::light(r) });
    s.bg = [0.7, 0.8, 0.9];
    s.shader = Sh::Path(r.log(1.0, 300.0) as u32);
    s.w = r.int(1, 3) as usize;
    s.h = r.int(1, 3) as usize;
    s.spp = r.int(1, 3) as u32;
    // longer than a recursion could be
    if r.chance(0.1) {
        s.shader = Sh::Path(r.log(1000.0, 12000.0) as u32);
        s.w = 1;
        s.spp = 1;
    }
    s
}

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    let b = match r.below(20) {
        0..=11 => B::Rays { s: scene(r), rays: r.int(5, 30) as u32, again: r.int(1, 20) as u32, ray_seed: r.u64() },
        12..=17 => B::Image { s: scene(r) },
        18 => B::Room { s: room(r) },
        _ => {
            let mirrors = if r.chance(0.1) { r.log(60.0, 4000.0) as u32 } else { *r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 50, 51]) };
            let depth = match r.below(5) {
                0 => r.log(1.0, 400.0) as u32,
                1 => r.int(0, 3) as u32,
                _ => (mirrors as i64 + r.int(-1, 2)).max(0) as u32,
            };
            B::Corridor { mirrors, depth, slope: r.range(0.3, 2.0), size: r.int(1, 2) as usize, lamp: r.chance(0.5) }
        }
    };
    sim.rng = if r.chance(0.15) { RngMode::Uniform } else { RngMode::Extremes { permille: *r.pick(&[1, 10, 50, 200, 500, 900]) } };
    sim.max_edges = 400_000_000;
    (sim, swarm::threads(r), b)
}

fn brightest(s: &SceneSpec) -> f64 {
    fn of_mat(m: &Mat) -> f64 {
        match m {
            Mat::Light { rgb, .. } => rgb.iter().cloned().fold(0.0, f64::max),
            Mat::Blend { a, b, .. } => of_mat(a).max(of_mat(b)),
            _ => 0.0,
        }
    }
    fn go(o: &Obj) -> f64 {
        match o {
            Obj::Sphere { mat, .. } | Obj::Quad { mat, .. } | Obj::Tri { mat, .. } | Obj::Box { mat, .. } => of_mat(mat),
            Obj::Group(l) => l.iter().map(go).fold(0.0, f64::max),
            Obj::Fog { .. } => 0.0,
        }
    }
    s.objs.iter().map(go).fold(0.0, f64::max).max(s.bg.iter().cloned().fold(0.0, f64::max)).max(1.0)
}

/// How bright and how dark a single colour of this scene may be.
fn range(s: &SceneSpec) -> (f64, f64) {
    let top = brightest(s);
    match s.shader {
        // scattered light is limited to 3, no surface reflects more than it receives
        Sh::Path(_) => (0.0, top.max(3.0) + 1e-9),
        Sh::Albedo => (0.0, top + 1e-9),
        // normals, and colours shaded by them: bump maps may lengthen a normal
        Sh::Normal => (-3.0, 3.0),
        Sh::Simple => (-3.0 * top, 4.0 * top),
    }
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    match b {
        B::Rays { s, rays: n, again, ray_seed } => rays(s, *n, *again, *ray_seed, out),
        B::Image { s } => image(s, out),
        B::Room { s } => dark(s, out),
        B::Corridor { mirrors, depth, slope, size, lamp } => corridor(*mirrors, *depth, *slope, *size, *lamp, out),
    }
    no_stray_panics(out);
}

fn rays(s: &SceneSpec, n: u32, again: u32, ray_seed: u64, out: &mut RunOut) {
    let list: Vec<Hittables> = s.objs.iter().flat_map(|o| o.real()).collect();
    let world = Bvh::new(list);
    let rend = match Renderer::new(s.with_world(world.clone())) {
        Ok(x) => x,
        Err(e) => return out.fail("render-error", format!("a scene with lights was refused: {e}")),
    };
    let leaves = model::flatten(&s.objs);
    let w = model::World { leaves, lights: vec![], bg: p(s.bg) };
    let mut r = Rng::new(ray_seed);
    let (lo, hi) = range(s);
    let sh = s.shader.real();
    for _ in 0..n {
        let q = if r.chance(0.15) {
            // along an axis, or along the face of something
            let l = &w.leaves[r.below(w.leaves.len() as u64) as usize];
            let (a, b) = l.bbox();
            let d = *r.pick(&[[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 0.0]]);
            model::Ray { o: *r.pick(&[a, b, (a + b) * 0.5]) - p(d) * r.log(0.1, 5.0), d: p(d) }
        } else {
            a_ray(&mut r, &w)
        };
        let real = solstrale::geo::Ray::new(q.o.v(), q.d.v());
        for _ in 0..again {
            let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| world.hit(&real, &RAY_INTERVAL).map(|rec| (of(sh.shade(&rend, &rec, &real, 0, 0.0).get_attenuated_color()), of(rec.normal)))));
            match c {
                Err(_) => return out.fail("panic", format!("{:?}: tracing from {:?} along {:?} panicked: {}", s.shader, q.o.arr(), q.d.arr(), take_panics().join(" | "))),
                Ok(None) => {}
                Ok(Some((c, n))) => {
                    out.probe("checked", 1);
                    out.probe("colours", 1);
                    if !c.finite() || c.arr().iter().any(|v| *v < lo || *v > hi) {
                        return out.fail("colour", format!("{:?}: colour {:?} along a ray from {:?} along {:?}, allowed is {lo} to {hi}", s.shader, c.arr(), q.o.arr(), q.d.arr()));
                    }
                    if !n.finite() {
                        return out.fail("normal", format!("normal {:?} where a ray from {:?} along {:?} hits", n.arr(), q.o.arr(), q.d.arr()));
                    }
                }
            }
        }
    }
}

/// Possible sums of samples behind a byte.
fn sum(b: u8, k: usize) -> (f64, f64) {
    let lo = (b as f64 / 256.0).powi(2);
    let hi = if b == 255 { f64::INFINITY } else { ((b as f64 + 1.0) / 256.0).powi(2) };
    (lo * k as f64, hi * k as f64)
}

fn image(s: &SceneSpec, out: &mut RunOut) {
    let o = run_one(Job { target: Target::Scene(Box::new(s.real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
    if !must_be_ok(out, "the render", &o.end) {
        return;
    }
    if o.reports.len() != s.spp as usize {
        return out.fail("reports", format!("{} reports for {} samples", o.reports.len(), s.spp));
    }
    let (_, top) = range(s);
    let positive = matches!(s.shader, Sh::Path(_) | Sh::Albedo);
    for y in 0..s.h {
        for x in 0..s.w {
            for c in 0..3 {
                let mut last = (0.0, 0.0);
                for (k, rep) in o.reports.iter().enumerate() {
                    let Some(img) = &rep.img else { return out.fail("no-image", format!("no image with sample {}", k + 1)) };
                    if img.w as usize != s.w || img.h as usize != s.h {
                        return out.fail("image-size", format!("{}x{}", img.w, img.h));
                    }
                    let now = sum(img.at(x, y)[c], k + 1);
                    out.probe("checked", 1);
                    out.probe("pixel_steps", 1);
                    if positive && (now.1 < last.0 * (1.0 - 1e-9) - 1e-9 || now.0 > last.1 + top + 1e-9) {
                        return out.fail("poisoned", format!("{:?}: pixel ({x},{y}) channel {c}: the samples so far come to between {} and {}, one more and they come to between {} and {}", s.shader, last.0, last.1, now.0, now.1));
                    }
                    last = (last.0.max(now.0), now.1.min(last.1 + top));
                }
            }
        }
    }
}

fn dark(s: &SceneSpec, out: &mut RunOut) {
    let o = run_one(Job { target: Target::Scene(Box::new(s.real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
    if !must_be_ok(out, "the render", &o.end) {
        return;
    }
    out.probe("checked", 1);
    out.probe("dark_rooms", 1);
    for rep in &o.reports {
        let Some(img) = &rep.img else { return out.fail("no-image", "a sample without an image") };
        if let Some(i) = img.px.iter().position(|&b| b != 0) {
            return out.fail("light-from-nowhere", format!("{:?}: byte {i} is {} in a closed room without light", s.shader, img.px[i]));
        }
    }
}

fn corridor(mirrors: u32, depth: u32, slope: f64, size: usize, lamp: bool, out: &mut RunOut) {
    // floor and ceiling of a corridor one high; the middle of the view meets them in turn
    let end = if mirrors == 0 { 0.3 / slope } else { mirrors as f64 / slope };
    let glass = || Mat::Metal { tex: Tex::Solid([1.0; 3]), bump: None, fuzz: 0.0 };
    let plane = |y: f64| Obj::Quad { q: [-1.0, y, -3.0], u: [1.0 + end, 0.0, 0.0], v: [0.0, 0.0, 6.0], mat: glass(), xf: vec![] };
    let mut objs = vec![plane(0.0), plane(1.0)];
    // it faces the corridor, or is out of sight
    let x = if lamp { end + 0.1 } else { -500.0 };
    objs.push(Obj::Quad { q: [x, -5.0, -5.0], u: [0.0, 0.0, 10.0], v: [0.0, 10.0, 0.0], mat: Mat::Light { rgb: [0.5; 3], half: None }, xf: vec![] });
    let s = SceneSpec {
        objs,
        cam: Cam { fov: 0.001, aperture: 0.0, from: [0.0, 0.5, 0.0], at: [1.0, 0.5 + slope, 0.0], up: [0.0, 1.0, 0.0] },
        bg: if lamp { [0.0; 3] } else { [0.5; 3] },
        w: size,
        h: size,
        spp: 2,
        shader: Sh::Path(depth),
        posts: vec![],
        strat: Strat::Every,
    };
    let o = run_one(Job { target: Target::Scene(Box::new(s.real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
    if !must_be_ok(out, "the render", &o.end) {
        return;
    }
    out.probe("checked", 1);
    out.probe("corridors", 1);
    // the lamp is one more thing the path has to reach; missing everything is not
    let seen = if lamp { mirrors < depth } else { mirrors <= depth };
    for rep in &o.reports {
        let Some(img) = &rep.img else { return out.fail("no-image", "a sample without an image") };
        for b in &img.px {
            if (*b != 0) != seen || (seen && *b != 181) {
                return out.fail("depth", format!("depth limit {depth}: a {} behind {mirrors} mirrors gives a pixel of {b}", if lamp { "lamp" } else { "background" }));
            }
        }
    }
}

pub fn shrink(b: &B) -> Vec<B> {
    let all = |s: &SceneSpec| scenes::shrink(s).into_iter().filter(|s| s.has_light()).collect::<Vec<_>>();
    match b {
        B::Rays { s, rays, again, ray_seed } => {
            let mk = |s: SceneSpec, rays: u32, again: u32| B::Rays { s, rays, again, ray_seed: *ray_seed };
            let mut v = vec![];
            if *rays > 1 {
                v.push(mk(s.clone(), rays / 2, *again));
                v.push(mk(s.clone(), rays - 1, *again));
            }
            if *again > 1 {
                v.push(mk(s.clone(), *rays, again / 2));
                v.push(mk(s.clone(), *rays, again - 1));
            }
            v.extend(all(s).into_iter().map(|s| mk(s, *rays, *again)));
            v
        }
        B::Image { s } => all(s).into_iter().map(|s| B::Image { s }).collect(),
        B::Corridor { mirrors, depth, slope, size, lamp } => {
            let mut v = vec![];
            if *mirrors > 0 && *depth > 0 {
                v.push(B::Corridor { mirrors: mirrors - 1, depth: depth - 1, slope: *slope, size: *size, lamp: *lamp });
            }
            if *slope != 1.0 || *size > 1 {
                v.push(B::Corridor { mirrors: *mirrors, depth: *depth, slope: 1.0, size: 1, lamp: *lamp });
            }
            v
        }
        // walls must stay
        B::Room { s } => {
            let mut v = vec![];
            for k in [1, 2, 5, 20] {
                if let Sh::Path(d) = s.shader {
                    if k < d {
                        v.push(B::Room { s: SceneSpec { shader: Sh::Path(k), ..s.clone() } });
                    }
                }
            }
            if s.objs.len() > 8 {
                v.push(B::Room { s: SceneSpec { objs: s.objs[1..].to_vec(), ..s.clone() } });
            }
            if s.spp > 1 {
                v.push(B::Room { s: SceneSpec { spp: 1, ..s.clone() } });
            }
            v
        }
    }
}

