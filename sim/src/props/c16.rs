//! Fog scatters a ray inside it at the depth the random draw decides.
use super::{no_stray_panics, Fin};
use crate::core::{take_panics, RunOut};
use crate::model::{self, of, p, Ray, P};
use crate::prng::Rng;
use crate::props::c09;
use crate::scenes::{self, at, place};
use crate::spec::*;
use crate::swarm;
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};
use solstrale::hittable::{Bvh, Hittable, Hittables};
use solstrale::material::{Material, RayScatter};
use solstrale::util::interval::{Interval, RAY_INTERVAL};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    /// Depths when every draw is `c`, from several threads at once.
    Depth { fogs: Vec<Obj>, wrap: bool, rays: u32, ray_seed: u64, c: f64, threads: u32 },
    /// Free paths of one ray under arbitrary draws.
    Paths { fog: Obj, ray_seed: u64, n: u32 },
    /// Directions of the scattered rays.
    Around { fog: Obj, lights: Vec<Obj>, ray_seed: u64, n: u32 },
}

pub const RULE: &str = "Most runs put one or a few bodies of fog (spheres, boxes, tetrahedra, octahedra and boxes of triangles, turned and nested, of any size and density) in the way of rays from outside, from inside and over bounded ranges, with directions of very different lengths and every draw set to one value, and compare the depth with -ln(r)/density along the stretch a geometric model finds; from up to three threads at once. The others draw thousands of free paths or scattered directions from arbitrary draws and compare their distributions with the exponential and the uniform one (Hoeffding and Bernstein bounds, error below 1e-10).";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 16000;

fn white() -> Mat {
    Mat::Lambert { tex: Tex::Solid([1.0, 1.0, 1.0]), bump: None }
}

fn tri(a: V, b: V, c: V) -> Obj {
    Obj::Tri { p: [a, b, c], uv: None, mat: white(), xf: vec![] }
}

/// A convex boundary around c.
pub fn boundary(r: &mut Rng, c: V, size: f64) -> Obj {
    let mut parts = match r.below(6) {
        0 | 1 => return Obj::Sphere { c, r: size, mat: white() },
        2 | 3 => {
            let h = [size, size * r.range(0.3, 1.5), size * r.range(0.3, 1.5)];
            let xf = if r.chance(0.5) { vec![] } else { vec![Xf::RotX(r.range(-180.0, 180.0)), Xf::RotY(r.range(-180.0, 180.0)), Xf::Move(place(r, [0.0; 3], 1.0))] };
            return Obj::Box { a: arr(v3(c) - v3(h)), b: at(c, h), mat: white(), xf };
        }
        // a tetrahedron
        4 => {
            let k = |x: f64, y: f64, z: f64| at(c, [x * size, y * size, z * size]);
            let (a, b, d, e) = (k(1.0, 1.0, 1.0), k(1.0, -1.0, -1.0), k(-1.0, 1.0, -1.0), k(-1.0, -1.0, 1.0));
            vec![tri(a, b, d), tri(a, d, e), tri(a, e, b), tri(b, d, e)]
        }
        // an octahedron
        _ => {
            let (x, y, z) = (size * r.range(0.6, 1.4), size * r.range(0.6, 1.4), size);
            let mut v = vec![];
            for sx in [-1.0, 1.0] {
                for sy in [-1.0, 1.0] {
                    for sz in [-1.0, 1.0] {
                        v.push(tri(at(c, [sx * x, 0.0, 0.0]), at(c, [0.0, sy * y, 0.0]), at(c, [0.0, 0.0, sz * z])));
                    }
                }
            }
            v
        }
    };
    if r.chance(0.4) {
        let tail = parts.split_off(r.int(1, parts.len() as i64 - 1) as usize);
        parts.push(Obj::Group(tail));
    }
    Obj::Group(parts)
}

fn fog(r: &mut Rng, c: V, size: f64) -> Obj {
    let b = boundary(r, c, size);
    // about as thick as it is wide, or much more, or much less
    let density = r.log(0.02, 20.0) / size;
    Obj::Fog { boundary: Box::new(b), density, rgb: scenes::rgb(r) }
}

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    let c0 = place(r, [0.0; 3], 8.0);
    let size = if r.chance(0.1) { r.log(30.0, 1e5) } else { r.log(0.05, 30.0) };
    let b = match r.below(20) {
        0 | 1 => B::Paths { fog: fog(r, c0, size), ray_seed: r.u64(), n: 20000 },
        2 => {
            let lights = (0..r.int(1, 3))
                .map(|_| {
                    let (c, s) = (place(r, c0, size * 5.0), size * r.log(0.05, 1.5));
                    let m = scenes::light(r);
                    scenes::prim(r, c, s, m)
                })
                .collect();
            B::Around { fog: fog(r, c0, size), lights, ray_seed: r.u64(), n: 8000 }
        }
        _ => {
            let c = model::gen_const(r);
            let n = *r.pick(&[1, 1, 1, 2, 4]);
            let mut fogs = vec![];
            for i in 0..n {
                let s = size * r.range(0.3, 1.0);
                let c = if i == 0 { c0 } else { place(r, c0, 4.0 * size) };
                fogs.push(fog(r, c, s));
            }
            // and something solid
            if r.chance(0.3) {
                let c = place(r, c0, 2.0 * size);
                fogs.push(scenes::prim(r, c, size * 0.5, white()));
            }
            B::Depth { wrap: fogs.len() > 1 || r.chance(0.3), fogs, rays: r.int(10, 80) as u32, ray_seed: r.u64(), c, threads: *r.pick(&[1, 1, 2, 3]) }
        }
    };
    sim.rng = match &b {
        B::Depth { c, .. } => RngMode::Const { c: *c },
        _ => RngMode::Uniform,
    };
    if !matches!(b, B::Depth { .. }) {
        sim.max_edges = 1_000_000_000;
    }
    (sim, swarm::threads(r), b)
}

fn ray(r: &mut Rng, leaves: &[model::Leaf]) -> (Ray, f64, f64) {
    let (lo, hi) = leaves[r.below(leaves.len() as u64) as usize].bbox();
    let pt = |r: &mut Rng| P::new(r.range(lo.x, hi.x), r.range(lo.y, hi.y), r.range(lo.z, hi.z));
    let size = (hi - lo).len();
    let t = pt(r);
    let dir = p(place(r, [0.0; 3], 1.0)).unit();
    let dist = if r.chance(0.35) { size * r.range(0.0, 0.4) } else { size * r.log(0.3, 30.0) };
    let d = dir * r.log(0.02, 20.0) * if r.chance(0.5) { 1.0 } else { size };
    let o = t - dir * dist;
    let k = dist / d.len();
    let w = size / d.len();
    let (a, b) = match r.below(8) {
        0..=3 => (RAY_INTERVAL.min, f64::INFINITY),
        4 => (RAY_INTERVAL.min, k + w * r.range(-0.6, 0.6)),
        5 => (k + w * r.range(-0.6, 0.6), f64::INFINITY),
        6 => (f64::NEG_INFINITY, f64::INFINITY),
        _ => {
            let a = k + w * r.range(-0.6, 0.3);
            (a, a + w * r.log(0.05, 1.0))
        }
    };
    (Ray { o, d }, a, b)
}

fn world(objs: &[Obj], wrap: bool) -> Hittables {
    let mut v: Vec<Hittables> = objs.iter().flat_map(|o| o.real()).collect();
    if wrap || v.len() != 1 {
        Bvh::new(v)
    } else {
        v.remove(0)
    }
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    match b {
        B::Depth { fogs, wrap, rays, ray_seed, c, threads } => depth(fogs, *wrap, *rays, *ray_seed, model::eff(*c), *threads, out),
        B::Paths { fog, ray_seed, n } => paths(fog, *ray_seed, *n, out),
        B::Around { fog, lights, ray_seed, n } => around(fog, lights, *ray_seed, *n, out),
    }
    no_stray_panics(out);
}

fn depth(fogs: &[Obj], wrap: bool, rays: u32, ray_seed: u64, c: f64, threads: u32, out: &mut RunOut) {
    let w = Arc::new(world(fogs, wrap));
    let fogs = Arc::new(fogs.to_vec());
    let mut hs = vec![];
    for k in 0..threads {
        let (w, fogs) = (w.clone(), fogs.clone());
        hs.push(simrt::exempt(|| {
            std::thread::spawn(move || {
                let mut o = RunOut::default();
                let leaves = model::flatten(&fogs);
                let mut r = Rng::new(ray_seed ^ k as u64);
                for _ in 0..rays {
                    let (ray, lo, hi) = ray(&mut r, &leaves);
                    match c09::judge(&leaves, &ray, lo, hi, c, &w) {
                        None => o.probe("rays_not_judged", 1),
                        Some(Ok(hit)) => {
                            o.probe("checked", 1);
                            o.probe(if hit { "hits" } else { "passed" }, 1);
                        }
                        Some(Err((c, d))) => o.fail(&c, d),
                    }
                }
                (o.viol, o.probes)
            })
        }));
    }
    for h in hs {
        match h.join() {
            Ok((viol, probes)) => {
                for (k, n) in probes {
                    out.probe(&k, n);
                }
                for v in viol {
                    out.fail(&v.class, v.detail);
                }
            }
            Err(_) => out.fail("panic", format!("looking for fog panicked: {}", take_panics().join(" | "))),
        }
    }
}

/// A ray with a clear stretch through the fog: (ray, lo, hi, start, length in scene units).
fn clear(r: &mut Rng, leaves: &[model::Leaf]) -> Option<(Ray, f64, f64, f64, f64)> {
    let model::Shape::Fog { parts, .. } = &leaves[0].shape else { return None };
    for _ in 0..50 {
        let (q, lo, hi) = ray(r, leaves);
        let mut amb = false;
        let Some((a, b)) = model::inside(parts, &q, &mut amb) else { continue };
        let (s, e) = (a.max(lo).max(0.0), b.min(hi));
        if amb || e - s < 1e-3 {
            continue;
        }
        return Some((q, lo, hi, s, (e - s) * q.d.len()));
    }
    None
}

fn paths(fog: &Obj, ray_seed: u64, n: u32, out: &mut RunOut) {
    let leaves = model::flatten(std::slice::from_ref(fog));
    let model::Shape::Fog { density, .. } = &leaves[0].shape else { return };
    let w = world(std::slice::from_ref(fog), false);
    let mut r = Rng::new(ray_seed);
    let Some((q, lo, hi, s, room)) = clear(&mut r, &leaves) else { return };
    let real = solstrale::geo::Ray::new(q.o.v(), q.d.v());
    let mut depths = vec![];
    for _ in 0..n {
        if let Some(h) = w.hit(&real, &Interval::new(lo, hi)) {
            let d = (h.ray_length - s) * q.d.len();
            if !(d >= -1e-6 * (1.0 + d.abs()) && d <= room * (1.0 + 1e-6) + 1e-6) {
                return out.fail("depth", format!("scattered {d} deep inside fog of which the ray crosses {room}"));
            }
            depths.push(d);
        }
    }
    depths.sort_by(f64::total_cmp);
    out.probe("checked", 1);
    out.probe("free_path_distributions", 1);
    let eps = ((2.0f64 / 1e-12).ln() / (2.0 * n as f64)).sqrt();
    for k in 1..=10 {
        let d = room * k as f64 / 10.0;
        let want = 1.0 - (-density * d).exp();
        let got = depths.partition_point(|&x| x <= d * (1.0 + 1e-6)) as f64 / n as f64;
        if (got - want).abs() > eps {
            return out.fail("free-path", format!("of {n} rays {got} are scattered within {d} of fog of density {density}, should be {want}"));
        }
    }
}

fn around(fog: &Obj, lights: &[Obj], ray_seed: u64, n: u32, out: &mut RunOut) {
    let leaves = model::flatten(std::slice::from_ref(fog));
    let model::Shape::Fog { rgb, .. } = &leaves[0].shape else { return };
    let real_lights: Vec<Hittables> = lights.iter().flat_map(|o| o.real()).collect();
    let w = world(std::slice::from_ref(fog), false);
    let mut r = Rng::new(ray_seed);
    let Some((q, lo, hi, ..)) = clear(&mut r, &leaves) else { return };
    let real = solstrale::geo::Ray::new(q.o.v(), q.d.v());
    let (mut m, mut sum) = (0u32, [0.0f64; 14]);
    let (mut nm, mut ns) = (0u32, [0.0f64; 14]);
    let region = |d: P| {
        let d = d.unit();
        let mut v = [false; 14];
        v[(d.x > 0.0) as usize | ((d.y > 0.0) as usize) << 1 | ((d.z > 0.0) as usize) << 2] = true;
        for (k, c) in d.arr().into_iter().enumerate() {
            v[8 + 2 * k] = c.abs() < 0.5;
            v[9 + 2 * k] = c > 0.5;
        }
        v
    };
    let share = |k: usize| if k < 8 { 0.125 } else if k % 2 == 0 { 0.5 } else { 0.25 };
    for _ in 0..n {
        let Some(h) = w.hit(&real, &Interval::new(lo, hi)) else { continue };
        let (normal, point) = (of(h.normal), of(h.hit_point));
        if (normal.len() - 1.0).abs() > 1e-6 {
            return out.fail("normal", format!("fog has the normal {normal:?}"));
        }
        nm += 1;
        for (k, x) in region(normal).into_iter().enumerate() {
            ns[k] += x as u32 as f64;
        }
        let RayScatter::ScatterPdf(s) = h.material.scatter(&real, &h, &real_lights) else {
            return out.fail("scatter", "fog does not scatter by a density");
        };
        if (of(s.color) - *rgb).max_abs() > 1e-12 {
            return out.fail("colour", format!("fog of colour {:?} scatters {:?}", rgb.arr(), s.color));
        }
        if (of(s.ray.origin) - point).max_abs() > 1e-9 * (1.0 + point.max_abs()) {
            return out.fail("origin", format!("scattered at {:?}, hit at {:?}", s.ray.origin, h.hit_point));
        }
        if !(s.probability >= 0.0 && s.probability <= 2.0 + 1e-9) {
            return out.fail("weight", format!("scattered with weight {}", s.probability));
        }
        m += 1;
        for (k, x) in region(of(s.ray.direction)).into_iter().enumerate() {
            sum[k] += x as u32 as f64 * s.probability;
        }
    }
    if m < 500 {
        return out.probe("too_few_scatterings", 1);
    }
    out.probe("checked", 1);
    out.probe("direction_distributions", 1);
    for k in 0..14 {
        let l = 26.0;
        let f = share(k);
        // weights are at most 2, so their second moment is at most 2f
        let tol = (2.0 * l * 2.0 * f / m as f64).sqrt() + 2.0 * l * 2.0 / (3.0 * m as f64);
        let got = sum[k] / m as f64;
        if (got - f).abs() > tol {
            return out.fail("directions", format!("{got} of the scattered light goes into region {k}, should be {f} (+-{tol}, {m} scatterings)"));
        }
        let tol = (l / (2.0 * nm as f64)).sqrt();
        if (ns[k] / nm as f64 - f).abs() > tol {
            return out.fail("normals", format!("{} of the normals point into region {k}, should be {f} (+-{tol})", ns[k] / nm as f64));
        }
    }
}

pub fn shrink(b: &B) -> Vec<B> {
    let simpler = |f: &Obj| -> Vec<Obj> {
        match f {
            Obj::Fog { boundary, density, rgb } => {
                let mut v = vec![];
                if !matches!(**boundary, Obj::Sphere { .. }) {
                    let l = model::flatten(std::slice::from_ref(f));
                    let (a, b) = l[0].bbox();
                    v.push(Obj::Fog { boundary: Box::new(Obj::Sphere { c: ((a + b) * 0.5).arr(), r: (b - a).len() * 0.3, mat: white() }), density: *density, rgb: *rgb });
                    v.push(Obj::Fog { boundary: Box::new(Obj::Box { a: a.arr(), b: b.arr(), mat: white(), xf: vec![] }), density: *density, rgb: *rgb });
                }
                if let Obj::Box { a, b, xf, .. } = &**boundary {
                    if !xf.is_empty() {
                        v.push(Obj::Fog { boundary: Box::new(Obj::Box { a: *a, b: *b, mat: white(), xf: vec![] }), density: *density, rgb: *rgb });
                    }
                }
                v
            }
            _ => vec![],
        }
    };
    match b {
        B::Depth { fogs, wrap, rays, ray_seed, c, threads } => {
            let mk = |fogs: Vec<Obj>, wrap: bool, rays: u32, threads: u32| B::Depth { fogs, wrap, rays, ray_seed: *ray_seed, c: *c, threads };
            let mut v = vec![];
            for i in 0..fogs.len() {
                if fogs.len() > 1 {
                    let mut f = fogs.clone();
                    f.remove(i);
                    v.push(mk(f, *wrap, *rays, *threads));
                }
            }
            if *threads > 1 {
                v.push(mk(fogs.clone(), *wrap, *rays, 1));
            }
            if *wrap && fogs.len() == 1 {
                v.push(mk(fogs.clone(), false, *rays, *threads));
            }
            if *rays > 1 {
                v.push(mk(fogs.clone(), *wrap, rays / 2, *threads));
                v.push(mk(fogs.clone(), *wrap, rays - 1, *threads));
            }
            for i in 0..fogs.len() {
                for s in simpler(&fogs[i]) {
                    let mut f = fogs.clone();
                    f[i] = s;
                    v.push(mk(f, *wrap, *rays, *threads));
                }
            }
            v
        }
        B::Paths { fog, ray_seed, n } => simpler(fog).into_iter().map(|fog| B::Paths { fog, ray_seed: *ray_seed, n: *n }).collect(),
        B::Around { fog, lights, ray_seed, n } => {
            let mut v: Vec<B> = simpler(fog).into_iter().map(|fog| B::Around { fog, lights: lights.clone(), ray_seed: *ray_seed, n: *n }).collect();
            for i in 0..lights.len() {
                if lights.len() > 1 {
                    let mut l = lights.clone();
                    l.remove(i);
                    v.push(B::Around { fog: fog.clone(), lights: l, ray_seed: *ray_seed, n: *n });
                }
            }
            v
        }
    }
}
