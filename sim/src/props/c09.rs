//! The world built in parallel finds exactly what an exhaustive search finds.
use super::{no_stray_panics, Fin};
use crate::core::{take_panics, RunOut};
use crate::model::{self, of, p, Draw, Leaf, Near, Ray, Shape, P};
use crate::prng::Rng;
use crate::scenes::{self, at, place};
use crate::spec::*;
use crate::swarm;
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};
use solstrale::hittable::{Bvh, Hittable, Hittables};
use solstrale::util::interval::Interval;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct B {
    pub objs: Vec<Obj>,
    pub rays: u32,
    pub ray_seed: u64,
    pub c: f64,
    /// Threads that build (and search) the world at the same time.
    pub builders: u32,
    /// 0: one flat list given to the library, 1: wrapped once more.
    pub wrap: bool,
}

pub const RULE: &str = "Each run draws a collection of spheres, quads, triangles, boxes, fog and nested groups (none to a few hundred, coincident, concentric, collinear, of very different sizes, empty groups), builds the world in the rayon pool under a random preempting schedule, from up to three threads at once, and asks every world for hits along aimed, axis-parallel and stray rays over bounded and unbounded ranges. Every answer is compared with an exhaustive search by an independent geometric model; rays that graze an edge within rounding are not judged.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 12000;

fn plain(r: &mut Rng, n: &mut u32, lights: f64) -> Mat {
    *n += 1;
    let c = [(*n % 97) as f64 / 100.0 + 0.013, (*n / 97 % 97) as f64 / 100.0 + 0.017, r.range(0.1, 0.9)];
    if r.chance(lights) {
        Mat::Light { rgb: [c[0] * 9.0, c[1] * 9.0, c[2] * 9.0], half: None }
    } else {
        Mat::Lambert { tex: Tex::Solid(c), bump: None }
    }
}

fn recolor(o: &mut Obj, r: &mut Rng, n: &mut u32, lights: f64) {
    match o {
        Obj::Sphere { mat, .. } | Obj::Quad { mat, .. } | Obj::Tri { mat, .. } | Obj::Box { mat, .. } => *mat = plain(r, n, lights),
        Obj::Group(l) => l.iter_mut().for_each(|o| recolor(o, r, n, lights)),
        Obj::Fog { rgb, .. } => {
            *n += 1;
            *rgb = [*n as f64 / 1e4 + 0.01, 0.5, r.f()];
        }
    }
}

fn one(r: &mut Rng, style: u32, i: i64, n: i64, depth: u32) -> Obj {
    let m = Mat::Lambert { tex: Tex::Solid([0.5; 3]), bump: None };
    let f = i as f64;
    if depth > 0 && r.chance(0.12) {
        let k = *r.pick(&[0, 0, 1, 1, 2, 3, 4, 7]);
        return Obj::Group((0..k).map(|j| one(r, style, i * 3 + j, n, depth - 1)).collect());
    }
    match style {
        // all around the same centre
        0 => {
            if r.chance(0.7) {
                Obj::Sphere { c: [1.0, 2.0, 3.0], r: 0.2 + 0.1 * f, mat: m }
            } else {
                let k = 0.15 + 0.1 * f;
                Obj::Box { a: [1.0 - k, 2.0 - k, 3.0 - k], b: [1.0 + k, 2.0 + k, 3.0 + k], mat: m, xf: vec![] }
            }
        }
        // along one axis, evenly or ever further apart
        1 => {
            let x = if n % 2 == 0 { f } else { 1.3f64.powi(i.min(40) as i32) };
            let c = match n % 3 {
                0 => [x, 0.5, -0.5],
                1 => [0.5, x, -0.5],
                _ => [0.5, -0.5, x],
            };
            scenes::prim(r, c, 0.4, m)
        }
        // very different sizes
        2 => {
            let c = place(r, [0.0, 0.0, 0.0], 10.0);
            let s = r.log(0.02, 30.0);
            scenes::prim(r, c, s, m)
        }
        // flat, axis-parallel tiles (some coincident)
        3 => {
            let (a, b) = (r.int(0, 4) as f64, r.int(0, 4) as f64);
            let z = r.int(0, 3) as f64;
            match r.below(3) {
                0 => Obj::Quad { q: [a, b, z], u: [1.0, 0.0, 0.0], v: [0.0, 1.0, 0.0], mat: m, xf: vec![] },
                1 => Obj::Quad { q: [z, a, b], u: [0.0, 1.0, 0.0], v: [0.0, 0.0, 1.0], mat: m, xf: vec![] },
                _ => Obj::Tri { p: [[a, z, b], [a + 1.0, z, b], [a, z, b + 1.0]], uv: None, mat: m, xf: vec![] },
            }
        }
        // small ones in a cloud
        4 => {
            let c = place(r, [5.0, -3.0, 2.0], 4.0);
            let s = r.log(0.1, 0.6);
            scenes::prim(r, c, s, m)
        }
        // tiny or huge ones, all of about the same size
        5 => {
            let s = 10f64.powf(if n % 3 == 0 { (n % 5) as f64 + 1.0 } else { -1.0 - (n % 6) as f64 });
            let c = place(r, [1.0, 2.0, -1.0].map(|x| x * s.max(0.5)), 6.0 * s);
            let s = s * r.range(0.3, 1.5);
            scenes::prim(r, c, s, m)
        }
        _ => {
            let c = place(r, [0.0, 0.0, 0.0], 6.0);
            scenes::object(r, c, true)
        }
    }
}

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    // Fog draws: the same value for each, so that it is an object like any other.
    let c = loop {
        let c = r.range(0.23, 0.77);
        if (c - 0.5f64).abs() > 0.01 {
            break c;
        }
    };
    sim.rng = RngMode::Const { c };
    let style = r.below(7) as u32;
    let n = match r.below(6) {
        0 => r.int(0, 3),
        1..=3 => r.int(1, 20),
        4 => r.int(10, 60),
        _ if r.chance(0.03) => r.log(250.0, 4000.0) as i64,
        _ => r.log(20.0, 250.0) as i64,
    };
    let mut objs: Vec<Obj> = (0..n).map(|i| one(r, style, i, n, 2)).collect();
    let lights = *r.pick(&[0.0, 0.1, 0.5]);
    let mut k = 0;
    objs.iter_mut().for_each(|o| recolor(o, r, &mut k, lights));
    // exact duplicates
    if !objs.is_empty() && r.chance(0.2) {
        for _ in 0..r.int(1, 6) {
            let o = r.pick(&objs).clone();
            objs.push(o);
        }
    }
    let k = r.below(objs.len() as u64 + 1) as usize;
    objs.rotate_left(k);
    let b = B { rays: r.int(4, 40) as u32, objs, ray_seed: r.u64(), c, builders: *r.pick(&[1, 1, 2, 3]), wrap: r.chance(0.1) };
    (sim, swarm::threads(r), b)
}

fn ray(r: &mut Rng, leaves: &[Leaf]) -> (Ray, f64, f64) {
    let mut size = 1.0;
    let target = if leaves.is_empty() || r.chance(0.05) {
        p([r.range(-9.0, 9.0), r.range(-9.0, 9.0), r.range(-9.0, 9.0)])
    } else {
        let l = &leaves[r.below(leaves.len() as u64) as usize];
        let (lo, hi) = l.bbox();
        size = (hi - lo).len();
        match &l.shape {
            // at a pole
            Shape::Sphere { c, r: rad } if r.chance(0.15) => {
                let s = if r.chance(0.5) { 1.0 } else { -1.0 };
                let off = p(place(r, [0.0; 3], 1.0)) * (rad * r.log(1e-9, 1e-2));
                *c + P::new(off.x, s * rad, off.z)
            }
            Shape::Tri { p, .. } => {
                let (a, b) = (r.f(), r.f());
                let (a, b) = if a + b > 1.0 { (1.0 - a, 1.0 - b) } else { (a, b) };
                p[0] + (p[1] - p[0]) * a + (p[2] - p[0]) * b
            }
            Shape::Quad { q, u, v } => *q + *u * r.f() + *v * r.f(),
            _ => {
                let (lo, hi) = l.bbox();
                P::new(r.range(lo.x, hi.x), r.range(lo.y, hi.y), r.range(lo.z, hi.z))
            }
        }
    };
    let dist = match r.below(5) {
        4 => size * r.log(0.1, 1e4),
        0 => r.log(0.01, 1.0),
        1 => r.log(1.0, 300.0),
        _ => r.log(0.5, 20.0),
    };
    let dir = match r.below(5) {
        // parallel to an axis or to a plane of two axes
        0 => {
            let mut d = [0.0, 0.0, 0.0];
            d[r.below(3) as usize] = if r.chance(0.5) { 1.0 } else { -1.0 };
            if r.chance(0.3) {
                d[r.below(3) as usize] = 0.7;
            }
            if r.chance(0.5) {
                d = d.map(|x| if x == 0.0 { -0.0 } else { x });
            }
            p(d)
        }
        _ => p(place(r, [0.0; 3], 1.0)).unit(),
    };
    let o = target - dir * dist;
    let d = dir * if r.chance(0.1) { r.log(1e-3, 1e5) } else { r.log(0.05, 50.0) };
    let t = dist / d.len();
    let (lo, hi) = match r.below(8) {
        0..=3 => (0.001, f64::INFINITY),
        4 => (f64::NEG_INFINITY, f64::INFINITY),
        5 => (0.001, t * r.range(0.3, 3.0)),
        6 => (t * r.range(0.1, 1.5), f64::INFINITY),
        _ => {
            let a = t * r.range(-3.0, 2.0);
            (a, a + t * r.log(0.01, 5.0))
        }
    };
    (Ray { o, d }, lo, hi)
}

fn mat_name(l: &Leaf) -> String {
    match l.mat {
        Some(m) => format!("{:?}", m.real()),
        None => String::new(),
    }
}

/// One answer against the reference; None = not judged.
pub fn judge(leaves: &[Leaf], r: &Ray, lo: f64, hi: f64, c: f64, world: &Hittables) -> Option<Result<bool, (String, String)>> {
    let mut amb = false;
    let want = model::nearest(leaves, r, lo, hi, &mut Draw::Const(c), &mut amb);
    if amb {
        return None;
    }
    let real = solstrale::geo::Ray::new(r.o.v(), r.d.v());
    let got = world.hit(&real, &Interval::new(lo, hi));
    let what = || format!("ray from {:?} along {:?} within [{lo}, {hi}]", r.o.arr(), r.d.arr());
    let (w, g): (Near, _) = match (want, got) {
        (None, None) => return Some(Ok(false)),
        (None, Some(g)) => return Some(Err(("false-hit".into(), format!("{}: hit at {} where nothing is", what(), g.ray_length)))),
        (Some(w), None) => return Some(Err(("missed".into(), format!("{}: nothing found, object {} is hit at {}", what(), w.leaf, w.cut.t)))),
        (Some(w), Some(g)) => (w, g),
    };
    let t = w.cut.t;
    if (g.ray_length - t).abs() > 1e-7 * (1.0 + t.abs()) {
        return Some(Err(("wrong-hit".into(), format!("{}: hit at {}, nearest is object {} at {t}", what(), g.ray_length, w.leaf))));
    }
    let far = r.o.len() + (r.d * t).len();
    if (of(g.hit_point) - r.at(t)).max_abs() > 1e-8 * (1.0 + far) {
        return Some(Err(("hit-point".into(), format!("{}: hit point {:?}, should be {:?}", what(), g.hit_point, r.at(t).arr()))));
    }
    let mut cands = vec![(w.leaf, w.cut)];
    cands.extend(w.ties.iter().cloned());
    let name = format!("{:?}", g.material);
    let mut why = String::new();
    for (i, cut) in cands {
        let l = &leaves[i];
        if let Shape::Fog { rgb, .. } = &l.shape {
            if [rgb.x, rgb.y, rgb.z].iter().all(|v| name.contains(&format!("{v:?}"))) && name.contains("Isotropic") {
                if g.front_face || (of(g.normal).len() - 1.0).abs() > 1e-9 {
                    why = format!("fog hit with normal {:?}", g.normal);
                    continue;
                }
                return Some(Ok(true));
            }
            why = format!("material {name}, should be fog of {:?}", rgb.arr());
            continue;
        }
        if name != mat_name(l) {
            why = format!("material {name}, should be {}", mat_name(l));
            continue;
        }
        let cos = r.d.dot(cut.n) / r.d.len();
        if cos.abs() < 1e-6 {
            return None;
        }
        if g.front_face != (cos < 0.0) {
            why = format!("front_face is {}", g.front_face);
            continue;
        }
        let n = if cos < 0.0 { cut.n } else { -cut.n };
        let cond = match &l.shape {
            Shape::Sphere { c, r: rad } => (r.o - *c).dot(r.o - *c) / (rad * rad),
            _ => 1.0,
        };
        if (of(g.normal) - n).max_abs() > 1e-6 + 1e-12 * cond {
            why = format!("normal {:?}, should be {:?}", g.normal, n.arr());
            continue;
        }
        let (du, dv) = ((g.uv.u as f64 - cut.uv[0]).abs(), (g.uv.v as f64 - cut.uv[1]).abs());
        let ok = match &l.shape {
            Shape::Sphere { .. } => {
                let round = (1.0 - cut.n.y * cut.n.y).max(0.0).sqrt();
                let tol = (1e-5 + 1e-12 * cond) / round.max(1e-9);
                (du <= tol || (du - 1.0).abs() <= tol) && dv <= 1e-5 + 1e-12 * cond
            }
            _ => du < 1e-4 && dv < 1e-4,
        };
        if !ok {
            why = format!("texture coordinate ({}, {}), should be {:?}", g.uv.u, g.uv.v, cut.uv);
            continue;
        }
        return Some(Ok(true));
    }
    Some(Err(("hit-data".into(), format!("{}: hit at {t}: {why}", what()))))
}

/// Lights and bounding box.
pub fn judge_world(leaves: &[Leaf], world: &Hittables) -> Result<(), (String, String)> {
    let lights = world.get_lights();
    let n = leaves.iter().filter(|l| l.is_light()).count();
    if lights.len() != n {
        return Err(("lights".into(), format!("{} lights found, the world has {n}", lights.len())));
    }
    if model::lights_in_order(leaves, &lights).is_none() {
        return Err(("lights".into(), format!("the {n} lights found are not those of the world")));
    }
    let b = world.bounding_box();
    for (i, l) in leaves.iter().enumerate() {
        let (lo, hi) = l.bbox();
        let e = 1e-9 * (1.0 + lo.max_abs().max(hi.max_abs()));
        for (iv, a, z) in [(b.x, lo.x, hi.x), (b.y, lo.y, hi.y), (b.z, lo.z, hi.z)] {
            if !(iv.min <= a + e && iv.max >= z - e) {
                return Err(("bounding-box".into(), format!("bounding box {b:?} does not enclose object {i} ({:?} to {:?})", lo.arr(), hi.arr())));
            }
        }
    }
    Ok(())
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    let bb = Arc::new(b.clone());
    let mut hs = vec![];
    for k in 0..b.builders {
        let b = bb.clone();
        hs.push(simrt::exempt(|| {
            std::thread::spawn(move || {
                let mut o = RunOut::default();
                let real: Vec<Hittables> = b.objs.iter().flat_map(|o| o.real()).collect();
                let w = Bvh::new(real);
                let w = if b.wrap { Bvh::new(vec![w]) } else { w };
                let leaves = model::flatten(&b.objs);
                o.probe("checked", 1);
                if let Err((c, d)) = judge_world(&leaves, &w) {
                    o.fail(&c, d);
                }
                let mut r = Rng::new(b.ray_seed ^ k as u64);
                for _ in 0..b.rays {
                    let (ray, lo, hi) = ray(&mut r, &leaves);
                    match judge(&leaves, &ray, lo, hi, b.c, &w) {
                        None => o.probe("rays_not_judged", 1),
                        Some(Ok(true)) => o.probe("hits", 1),
                        Some(Ok(false)) => o.probe("misses", 1),
                        Some(Err((c, d))) => o.fail(&c, d),
                    }
                }
                (o.viol, o.probes)
            })
        }));
    }
    for h in hs {
        match h.join() {
            Ok((viol, probes)) => {
                for (k, n) in probes {
                    out.probe(&k, n);
                }
                for v in viol {
                    out.fail(&v.class, v.detail);
                }
            }
            Err(_) => out.fail("panic", format!("building or searching the world panicked: {}", take_panics().join(" | "))),
        }
    }
    no_stray_panics(out);
}

pub fn shrink(b: &B) -> Vec<B> {
    let mut v = vec![];
    let with = |o: Vec<Obj>| B { objs: o, ..b.clone() };
    let n = b.objs.len();
    if b.builders > 1 {
        v.push(B { builders: 1, ..b.clone() });
    }
    let mut k = n / 2;
    while k >= 1 {
        for s in (0..n).step_by(k) {
            let mut o = b.objs.clone();
            o.drain(s..(s + k).min(n));
            v.push(with(o));
        }
        k /= 2;
    }
    for i in 0..n {
        if let Obj::Group(l) = &b.objs[i] {
            let mut o = b.objs.clone();
            o.splice(i..=i, l.iter().cloned());
            v.push(with(o));
        }
    }
    if b.rays > 1 {
        v.push(B { rays: b.rays / 2, ..b.clone() });
        v.push(B { rays: b.rays - 1, ..b.clone() });
    }
    if b.wrap {
        v.push(B { wrap: false, ..b.clone() });
    }
    let _ = at;
    v
}
