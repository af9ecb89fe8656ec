//! Camera rays cover exactly the view and the lens, focused at the focus point.
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::{take_panics, RunOut};
use crate::model::{of, p, P};
use crate::prng::Rng;
use crate::render::*;
use crate::spec::*;
use crate::swarm;
use crate::tiles::gen_cam;
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};
use solstrale::camera::Camera;
use solstrale::geo::Uv;
use std::f64::consts::PI;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    /// Single rays under any draws, one camera used by several threads.
    Rays { cam: Cam, w: usize, h: usize, n: u32, seed: u64, threads: u32 },
    /// Where on the lens many rays start.
    Lens { cam: Cam, w: usize, h: usize, uv: [f32; 2], n: u32 },
    /// The lens seen in an image: how much of a screen in front of the camera's
    /// focus one pixel gathers.
    Blur { cam: Cam, at: f64, spp: u32 },
}

pub const RULE: &str = "Cameras of any position, direction, up vector, field of view, aperture and image shape give rays for image positions in and around the image under uniform and extreme draws, from up to four threads at once; each ray is judged by its geometry alone (starts on the lens disc, passes the position's point on the focus plane). Other runs draw thousands of rays for one position and compare the use of the lens with the uniform one over rings and sectors (Hoeffding bound, error below 1e-11), or render a one-pixel image through a real render and compare how much of a half plane in front of the focus it gathers.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 20000;

fn cam(r: &mut Rng) -> Cam {
    let mut c = gen_cam(r);
    if r.chance(0.3) {
        c.fov = if r.chance(0.2) { *r.pick(&[0.1, 0.01, 172.0, 178.0, 179.5]) } else { r.range(1.0, 170.0) };
    }
    // up need not be perpendicular to the view, nor of length one
    if r.chance(0.1) {
        // almost along the view
        let w = (p(c.at) - p(c.from)).unit();
        let side = w.cross(p(c.up)).unit();
        c.up = (w * *r.pick(&[1.0, -1.0]) + side * r.log(1e-5, 0.3)).arr();
    }
    let k = r.log(0.01, 100.0);
    c.up = c.up.map(|x| x * k);
    // focused as near or as far as it may be
    if r.chance(0.25) {
        let k = r.log(1e-4, 1e4);
        c.at = (p(c.from) + (p(c.at) - p(c.from)) * k).arr();
    }
    c.aperture = match r.below(4) {
        0 => 0.0,
        1 => r.log(1e-4, 0.1),
        _ => r.log(0.05, 20.0),
    };
    c
}

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    let mut c = cam(r);
    let side = |r: &mut Rng| if r.chance(0.3) { r.int(1, 5) as usize } else { r.log(1.0, 5000.0) as usize };
    let b = match r.below(20) {
        0..=2 => {
            c.aperture = r.log(0.01, 20.0);
            B::Lens { cam: c, w: side(r), h: side(r), uv: [r.f() as f32, r.f() as f32], n: 6000 }
        }
        3 => {
            c.aperture = r.log(0.05, 5.0);
            B::Blur { cam: c, at: r.range(0.2, 0.8), spp: 400 }
        }
        _ => B::Rays { cam: c, w: side(r), h: side(r), n: r.int(20, 400) as u32, seed: r.u64(), threads: *r.pick(&[1, 1, 2, 4]) },
    };
    sim.rng = match b {
        B::Rays { .. } if r.chance(0.4) => RngMode::Extremes { permille: r.int(1, 400) as u32 },
        _ => RngMode::Uniform,
    };
    (sim, swarm::threads(r), b)
}

struct View {
    from: P,
    u: P,
    v: P,
    w: P,
    dist: f64,
    vw: f64,
    vh: f64,
}

fn view(c: &Cam, w: usize, h: usize) -> View {
    let (from, at, up) = (p(c.from), p(c.at), p(c.up));
    let back = from - at;
    let dist = back.len();
    let wv = back.unit();
    let u = up.cross(wv).unit();
    let v = wv.cross(u);
    let vh = 2.0 * (c.fov * PI / 360.0).tan() * dist;
    View { from, u, v, w: wv, dist, vw: vh * (w as f64 / h as f64), vh }
}

/// The lens point in units of its radius.
fn judge(c: &Cam, k: &View, uv: [f32; 2], ray: &solstrale::geo::Ray) -> Result<(f64, f64), (String, String)> {
    let (o, d) = (of(ray.origin), of(ray.direction));
    let what = || format!("ray for ({}, {}) from {:?} along {:?}", uv[0], uv[1], o.arr(), d.arr());
    if !o.finite() || !d.finite() || d.len() == 0.0 {
        return Err(("not-finite".into(), what()));
    }
    let rad = c.aperture * 0.5;
    let off = o - k.from;
    let scale = 1.0 + k.from.len() + k.dist;
    let e = 1e-9 * (scale + rad);
    if off.len() > rad + e || off.dot(k.w).abs() > e {
        return Err(("lens".into(), format!("{}: starts {} from the camera position, {} off the lens plane; the lens has radius {rad}", what(), off.len(), off.dot(k.w))));
    }
    let c0 = k.from - k.w * k.dist;
    let target = c0 + k.u * (k.vw * (uv[0] as f64 - 0.5)) + k.v * (k.vh * (uv[1] as f64 - 0.5));
    let to = target - o;
    let size = k.vw + k.vh + k.dist + rad;
    let miss = to.cross(d).len() / d.len();
    if to.dot(d) <= 0.0 || miss > 1e-7 * size + 1e-9 * scale {
        return Err(("focus".into(), format!("{}: passes {miss} from {:?}, the position's point on the focus plane", what(), target.arr())));
    }
    Ok(if rad > 0.0 { (off.dot(k.u) / rad, off.dot(k.v) / rad) } else { (0.0, 0.0) })
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    match b {
        B::Rays { cam, w, h, n, seed, threads } => rays(cam, *w, *h, *n, *seed, *threads, out),
        B::Lens { cam, w, h, uv, n } => lens(cam, *w, *h, *uv, *n, out),
        B::Blur { cam, at, spp } => blur(cam, *at, *spp, out),
    }
    no_stray_panics(out);
}

fn rays(cam: &Cam, w: usize, h: usize, n: u32, seed: u64, threads: u32, out: &mut RunOut) {
    let c = Arc::new(Camera::new(w, h, &cam.real()));
    let mut hs = vec![];
    for k in 0..threads {
        let (c, cam) = (c.clone(), cam.clone());
        hs.push(simrt::exempt(|| {
            std::thread::spawn(move || {
                let v = view(&cam, w, h);
                let mut r = Rng::new(seed ^ k as u64);
                for i in 0..n {
                    let uv = match r.below(6) {
                        0 => [*r.pick(&[0.0f32, 0.5, 1.0]), *r.pick(&[0.0f32, 0.5, 1.0])],
                        // the last samples of a row lie beyond 1
                        1 => [r.range(-0.5, 2.0) as f32, r.range(-0.5, 2.0) as f32],
                        _ => [r.f() as f32, r.f() as f32],
                    };
                    let ray = c.get_ray(Uv::new(uv[0], uv[1]));
                    if let Err(e) = judge(&cam, &v, uv, &ray) {
                        return (i, Some(e));
                    }
                }
                (n, None)
            })
        }));
    }
    for h in hs {
        match h.join() {
            Ok((n, e)) => {
                out.probe("checked", n as u64);
                out.probe("rays", n as u64);
                if let Some((c, d)) = e {
                    out.fail(&c, d);
                }
            }
            Err(_) => out.fail("panic", format!("making a ray panicked: {}", take_panics().join(" | "))),
        }
    }
}

fn lens(cam: &Cam, w: usize, h: usize, uv: [f32; 2], n: u32, out: &mut RunOut) {
    let c = Camera::new(w, h, &cam.real());
    let v = view(cam, w, h);
    // rings of equal area times sectors, and the two coordinates' signs
    let mut cells = [0u32; 6 * 8];
    for _ in 0..n {
        match judge(cam, &v, uv, &c.get_ray(Uv::new(uv[0], uv[1]))) {
            Err((c, d)) => return out.fail(&c, d),
            Ok((x, y)) => {
                let ring = (((x * x + y * y) * 6.0) as usize).min(5);
                let sector = (((y.atan2(x) + PI) / (2.0 * PI) * 8.0) as usize).min(7);
                cells[ring * 8 + sector] += 1;
            }
        }
    }
    out.probe("checked", 1);
    out.probe("lens_distributions", 1);
    let want = n as f64 / 48.0;
    for (k, &g) in cells.iter().enumerate() {
        // Bernstein: 48 cells, together below 1e-10
        let l = 28.0;
        let tol = (2.0 * l * want).sqrt() + l / 3.0;
        if (g as f64 - want).abs() > tol {
            return out.fail("lens-use", format!("{g} of {n} rays start in ring {} sector {} of the lens, should be {want} (+-{tol})", k / 8, k % 8));
        }
    }
}

/// Fraction of a unit disc with x < a.
fn disc_left(a: f64) -> f64 {
    if a <= -1.0 {
        0.0
    } else if a >= 1.0 {
        1.0
    } else {
        1.0 - (a.acos() - a * (1.0 - a * a).sqrt()) / PI
    }
}

fn blur(cam: &Cam, f: f64, spp: u32, out: &mut RunOut) {
    // One pixel; the screen is half-way to the focus, black on one side of a
    // line across the blur disc.
    let v = view(cam, 1, 1);
    let rad = cam.aperture * 0.5;
    let mut c = cam.clone();
    // a narrow view: the pixel itself is far smaller than the blur
    c.fov = 2.0 * (rad * 1e-4 / v.dist).atan() * 180.0 / PI;
    let v = view(&c, 1, 1);
    let z = v.dist * (0.3 + 0.4 * f);
    let blur = rad * (1.0 - z / v.dist);
    let a = (f - 0.5) * 1.6;
    // the image position runs from 0 to 1, its centre is the view's centre
    let c0 = v.from - v.w * z;
    let big = blur * 4.0 + 1.0;
    // a light to the left of the line, facing the camera
    let q = c0 + v.u * (blur * a - big) - v.v * (big * 0.5);
    let s = SceneSpec {
        objs: vec![Obj::Quad { q: q.arr(), u: (v.u * big).arr(), v: (v.v * big).arr(), mat: Mat::Light { rgb: [0.81, 0.81, 0.81], half: None }, xf: vec![] }],
        cam: c.clone(),
        bg: [0.0; 3],
        w: 1,
        h: 1,
        spp,
        shader: Sh::Path(2),
        posts: vec![],
        strat: Strat::Final,
    };
    let o = run_one(Job { target: Target::Scene(Box::new(s.real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
    if !must_be_ok(out, "the render", &o.end) {
        return;
    }
    let Some(img) = o.reports.last().and_then(|r| r.img.as_ref()) else {
        return out.fail("no-final-image", "the last report carries no image");
    };
    out.probe("checked", 1);
    out.probe("blurred_images", 1);
    let b = img.at(0, 0)[0] as f64;
    let (lo, hi) = ((b / 256.0).powi(2) / 0.81, ((b + 1.0) / 256.0).powi(2) / 0.81);
    let want = disc_left(a);
    let tol = (2.0f64.ln() + 26.0).sqrt() / (2.0 * spp as f64).sqrt() + 1e-3;
    if want + tol < lo || want - tol > hi {
        out.fail("blur", format!("a pixel gathers between {lo} and {hi} of a screen of which the lens sees {want} (+-{tol})"));
    }
}

pub fn shrink(b: &B) -> Vec<B> {
    let cams = |c: &Cam| {
        let mut v = vec![];
        for k in [Cam { fov: 90.0, ..c.clone() }, Cam { from: [0.0; 3], at: [0.0, 0.0, -1.0], ..c.clone() }, Cam { up: [0.0, 1.0, 0.0], ..c.clone() }, Cam { aperture: 0.0, ..c.clone() }, Cam { aperture: 1.0, ..c.clone() }] {
            let ok = p(k.up).cross(p(k.from) - p(k.at)).len() > 1e-3;
            if k != *c && ok {
                v.push(k);
            }
        }
        v
    };
    match b {
        B::Rays { cam, w, h, n, seed, threads } => {
            let mk = |cam: Cam, w: usize, h: usize, n: u32, threads: u32| B::Rays { cam, w, h, n, seed: *seed, threads };
            let mut v: Vec<B> = cams(cam).into_iter().map(|c| mk(c, *w, *h, *n, *threads)).collect();
            if *threads > 1 {
                v.push(mk(cam.clone(), *w, *h, *n, 1));
            }
            if *n > 1 {
                v.push(mk(cam.clone(), *w, *h, n / 2, *threads));
                v.push(mk(cam.clone(), *w, *h, n - 1, *threads));
            }
            if *w > 1 {
                v.push(mk(cam.clone(), 1, *h, *n, *threads));
            }
            if *h > 1 {
                v.push(mk(cam.clone(), *w, 1, *n, *threads));
            }
            v
        }
        B::Lens { cam, w, h, uv, n } => cams(cam).into_iter().filter(|c| c.aperture > 0.0).map(|cam| B::Lens { cam, w: *w, h: *h, uv: *uv, n: *n }).collect(),
        B::Blur { cam, at, spp } => cams(cam).into_iter().filter(|c| c.aperture > 0.0).map(|cam| B::Blur { cam, at: *at, spp: *spp }).collect(),
    }
}
