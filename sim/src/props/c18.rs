//! Directions sampled toward a light hit it, with the density reported for them.
use super::{no_stray_panics, Fin};
use crate::core::{take_panics, RunOut};
use crate::model::{self, of, p, Leaf, Ray, Shape, P};
use crate::prng::Rng;
use crate::scenes::{self, place};
use crate::spec::*;
use crate::swarm;
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Onb;
use solstrale::hittable::{Hittable, Hittables};
use solstrale::material::{Material, RayScatter};
use solstrale::pdf::{mix_generate, mix_value, ContainerPdf, CosinePdf, Pdf, SpherePdf};
use solstrale::util::interval::RAY_INTERVAL;
use std::f64::consts::PI;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    /// Single directions and densities, from several threads.
    Points { lights: Vec<Obj>, origins: Vec<V>, n: u32, seed: u64, threads: u32 },
    /// Where on a light the draws go.
    Spread { light: Obj, origin: V, n: u32 },
    /// How often each of several lights, or of the two halves of a mixture, is chosen.
    Choice { lights: Vec<Obj>, origin: V, normal: V, n: u32 },
    /// The cosine and the uniform density.
    Shapes { normal: V, n: u32, seed: u64 },
    /// A matte surface: the mixture as a material uses it.
    Matte { lights: Vec<Obj>, origin: V, normal: V, n: u32 },
}

pub const RULE: &str = "Lights of every shape, size and place, seen from points near, far and inside of spheres: every drawn direction (uniform and extreme draws, up to four threads at once) is judged by an independent geometric model to hit its light, and the density reported for it and for arbitrary other directions is compared with the model's. Other runs draw thousands of directions and compare their spread over cells of equal probability, the choice between several lights, the mixture's halves and the cosine and uniform densities with what they should be (Bernstein bounds, error below 1e-10 per run).";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 16000;

fn light(r: &mut Rng, c: V, size: f64) -> Obj {
    let m = scenes::light(r);
    scenes::prim(r, c, size, m)
}

fn solid(o: &Obj) -> Leaf<'_> {
    model::flatten(std::slice::from_ref(o)).remove(0)
}

/// A point from which the light is clearly visible (or inside of it).
fn origin(r: &mut Rng, o: &Obj) -> V {
    let l = solid(o);
    let (lo, hi) = l.bbox();
    let size = (hi - lo).len();
    loop {
        let q = match (&l.shape, r.below(10)) {
            (Shape::Sphere { c, r: rad }, 0 | 1) => *c + p(place(r, [0.0; 3], 0.95)) * *rad,
            (Shape::Sphere { c, r: rad }, 2) => *c + p(place(r, [0.0; 3], 1.0)).unit() * (*rad * (1.0 + r.log(1e-5, 0.3))),
            _ => l.centre() + p(place(r, [0.0; 3], 1.0)).unit() * (size * r.log(0.3, 100.0)),
        };
        let ok = match &l.shape {
            // further away than the shortest ray that counts
            Shape::Sphere { c, r: rad } => ((q - *c).len() - rad).abs() > 0.003f64.max(3e-6 * rad),
            Shape::Quad { q: k, u, v } => height(q - *k, u.cross(*v)) > 0.05 * size.min((q - *k).len()),
            Shape::Tri { p: t, .. } => height(q - t[0], (t[1] - t[0]).cross(t[2] - t[0])) > 0.05 * size.min((q - t[0]).len()),
            _ => false,
        };
        if ok {
            return q.arr();
        }
    }
}

fn height(a: P, n: P) -> f64 {
    a.dot(n.unit()).abs()
}

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    let c = place(r, [0.0; 3], 6.0);
    let size = if r.chance(0.1) { r.log(20.0, 5000.0) } else { r.log(0.05, 20.0) };
    let normal = |r: &mut Rng| arr(v3(place(r, [0.0; 3], 1.0)) * r.log(0.5, 2.0));
    let b = match r.below(20) {
        0..=3 => {
            let l = light(r, c, size);
            B::Spread { origin: origin(r, &l), light: l, n: 6000 }
        }
        4 | 5 => {
            let n = if r.chance(0.35) { r.int(5, 40) } else { r.int(1, 4) };
            let (lights, origin) = apart(r, n, size);
            let dir = normal(r);
            B::Choice { lights, origin, normal: dir, n: 6000 }
        }
        6 => B::Shapes { normal: normal(r), n: 8000, seed: r.u64() },
        7 | 8 => {
            let n = if r.chance(0.2) { r.int(4, 12) } else { r.int(1, 3) };
            let (lights, origin) = apart(r, n, size);
            let dir = v3(place(r, [0.0; 3], 1.0)).unit();
            B::Matte { lights, origin, normal: arr(dir), n: 3000 }
        }
        _ => {
            let n = if r.chance(0.05) { r.int(6, 40) } else { *r.pick(&[1, 1, 2, 3, 5]) };
            let lights: Vec<Obj> = (0..n)
                .map(|_| {
                    let (c, s) = (place(r, c, 3.0 * size), size * r.log(0.1, 1.0));
                    light(r, c, s)
                })
                .collect();
            let origins = (0..r.int(1, 6)).map(|_| { let l = r.pick(&lights).clone(); origin(r, &l) }).collect();
            B::Points { lights, origins, n: r.int(10, 60) as u32, seed: r.u64(), threads: *r.pick(&[1, 1, 2, 4]) }
        }
    };
    sim.rng = match b {
        B::Points { .. } if r.chance(0.35) => RngMode::Extremes { permille: r.int(1, 300) as u32 },
        _ => RngMode::Uniform,
    };
    sim.max_edges = 400_000_000;
    (sim, swarm::threads(r), b)
}

/// Lights in clearly different directions from one point.
fn apart(r: &mut Rng, n: i64, size: f64) -> (Vec<Obj>, V) {
    let o = place(r, [0.0; 3], 5.0);
    let dirs = [[1.0, 0.2, 0.1], [-1.0, 0.1, 0.2], [0.1, 1.0, -0.2], [-0.1, -1.0, 0.2], [0.1, -0.2, 1.0], [0.2, 0.1, -1.0]];
    let k = r.below(6) as usize;
    let v = (0..n)
        .map(|i| {
            let dist = size * r.log(2.0, 30.0);
            let d = if n <= 6 {
                p(dirs[(k + i as usize) % 6]).unit()
            } else {
                // evenly around the point
                let y = 1.0 - (2.0 * i as f64 + 1.0) / n as f64;
                let (a, h) = (i as f64 * 2.399963 + k as f64, (1.0 - y * y).sqrt());
                P::new(h * a.cos(), y, h * a.sin())
            };
            let narrow = (6.0 / n as f64).sqrt().min(1.0);
            let c = p(o) + d * dist;
            loop {
                let s = dist * 0.2 * narrow * r.range(0.2, 1.0);
                let l = light(r, c.arr(), s);
                let ok = match &l {
                    Obj::Sphere { .. } => true,
                    // facing the point clearly and where it was meant to be
                    Obj::Quad { u, v, xf, .. } => xf.is_empty() && v3(*u).cross(v3(*v)).unit().dot(d.v()).abs() > 0.2,
                    Obj::Tri { p: t, xf, .. } => xf.is_empty() && (v3(t[1]) - v3(t[0])).cross(v3(t[2]) - v3(t[0])).unit().dot(d.v()).abs() > 0.2,
                    _ => false,
                };
                if ok {
                    return l;
                }
            }
        })
        .collect();
    (v, o)
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    match b {
        B::Points { lights, origins, n, seed, threads } => points(lights, origins, *n, *seed, *threads, out),
        B::Spread { light, origin, n } => spread(light, *origin, *n, out),
        B::Choice { lights, origin, normal, n } => choice(lights, *origin, *normal, *n, out),
        B::Shapes { normal, n, seed } => shapes(*normal, *n, *seed, out),
        B::Matte { lights, origin, normal, n } => matte(lights, *origin, *normal, *n, out),
    }
    no_stray_panics(out);
}

fn real(l: &[Obj]) -> Vec<Hittables> {
    l.iter().flat_map(|o| o.real()).collect()
}

/// Is the whole light reached along this direction? None when too close to call.
fn hits(l: &Leaf, o: P, d: P) -> Option<bool> {
    let mut amb = false;
    let v = model::light_pdf(l, o, d, &mut amb);
    if amb {
        None
    } else {
        Some(v > 0.0)
    }
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-5 * b.abs().max(a.abs()) + 1e-12
}

type Fail = (String, String);

fn point(lights: &[Obj], hs: &[Hittables], o: P, r: &mut Rng, probes: &mut [u64; 3]) -> Result<(), Fail> {
    let leaves: Vec<Leaf> = lights.iter().map(solid).collect();
    let k = r.below(hs.len() as u64) as usize;
    // a drawn direction
    let d = of(hs[k].random_direction(o.v()));
    if !d.finite() || d.len() == 0.0 {
        return Err(("direction".into(), format!("{:?} drawn from {:?} toward {:?}", d.arr(), o.arr(), lights[k])));
    }
    // (triangles too small for the crate's arithmetic are left out)
    let tiny = |l: &Leaf, d: P| match &l.shape {
        Shape::Tri { p: t, .. } => (t[1] - t[0]).cross(t[2] - t[0]).dot(d).abs() < 1e-7,
        _ => false,
    };
    if leaves.iter().any(|l| tiny(l, d)) {
        probes[1] += 1;
        return Ok(());
    }
    match hits(&leaves[k], o, d) {
        None => probes[1] += 1,
        Some(true) => {
            probes[0] += 1;
            if !(hs[k].pdf_value(o.v(), d.v()) > 0.0) {
                return Err(("density".into(), format!("density {} for direction {:?} from {:?}, which was drawn toward {:?} and hits it", hs[k].pdf_value(o.v(), d.v()), d.arr(), o.arr(), lights[k])));
            }
        }
        Some(false) => {
            // only when the light is too far off the allowed range or seen edge-on
            return Err(("missed".into(), format!("direction {:?} drawn from {:?} misses {:?}", d.arr(), o.arr(), lights[k])));
        }
    }
    // any other direction: into or past some light, or nowhere
    let e = if r.chance(0.6) {
        let l = &leaves[r.below(leaves.len() as u64) as usize];
        let (lo, hi) = l.bbox();
        let t = P::new(r.range(lo.x, hi.x), r.range(lo.y, hi.y), r.range(lo.z, hi.z));
        (t - o).unit() * r.log(0.1, 100.0)
    } else {
        p(place(r, [0.0; 3], 1.0)) * r.log(0.1, 10.0)
    };
    if e.len() < 1e-9 {
        return Ok(());
    }
    for d in [d, e] {
        if leaves.iter().any(|l| tiny(l, d)) {
            probes[1] += 1;
            continue;
        }
        let mut sum = 0.0;
        let mut all = true;
        for (i, l) in leaves.iter().enumerate() {
            let mut amb = false;
            let want = model::light_pdf(l, o, d, &mut amb);
            sum += want;
            if amb {
                all = false;
                probes[1] += 1;
                continue;
            }
            probes[0] += 1;
            let got = hs[i].pdf_value(o.v(), d.v());
            if !close(got, want) {
                return Err(("density".into(), format!("density {got} for direction {:?} from {:?} toward {:?}, should be {want}", d.arr(), o.arr(), lights[i])));
            }
        }
        if all {
            let c = ContainerPdf::new(hs, o.v());
            let want = sum / hs.len() as f64;
            let got = c.value(d.v());
            if !close(got, want) {
                return Err(("density-of-all".into(), format!("density {got} for direction {:?} from {:?} over {} lights, should be {want}", d.arr(), o.arr(), hs.len())));
            }
            let n = p(place(r, [0.0; 3], 1.0));
            let cos = (d.unit().dot(n.unit()) / PI).max(0.0);
            let cp = CosinePdf::new(n.v());
            if !close(cp.value(d.v()), cos) {
                return Err(("cosine".into(), format!("cosine density {} of {:?} around {:?}, should be {cos}", cp.value(d.v()), d.arr(), n.arr())));
            }
            for (a, b) in [(&c, &cp), (&cp, &c)] {
                let m = mix_value(a, b, d.v());
                if !close(m, 0.5 * want + 0.5 * cos) {
                    return Err(("mixture".into(), format!("mixed density {m} of {want} and {cos}")));
                }
            }
            if !close(SpherePdf::new().value(d.v()), 1.0 / (4.0 * PI)) {
                return Err(("uniform".into(), format!("uniform density {}", SpherePdf::new().value(d.v()))));
            }
            probes[2] += 1;
        }
    }
    Ok(())
}

fn points(lights: &[Obj], origins: &[V], n: u32, seed: u64, threads: u32, out: &mut RunOut) {
    let hs = Arc::new(real(lights));
    let (lights, origins) = (Arc::new(lights.to_vec()), Arc::new(origins.to_vec()));
    let mut js = vec![];
    for k in 0..threads {
        let (hs, lights, origins) = (hs.clone(), lights.clone(), origins.clone());
        js.push(simrt::exempt(|| {
            std::thread::spawn(move || {
                let mut r = Rng::new(seed ^ k as u64);
                let mut probes = [0u64; 3];
                let mut e = None;
                for _ in 0..n {
                    let o = p(origins[r.below(origins.len() as u64) as usize]);
                    if let Err(x) = point(&lights, &hs, o, &mut r, &mut probes) {
                        e = Some(x);
                        break;
                    }
                }
                (probes, e)
            })
        }));
    }
    for j in js {
        match j.join() {
            Ok((pr, e)) => {
                out.probe("checked", pr[0]);
                out.probe("densities", pr[0]);
                out.probe("not_judged", pr[1]);
                out.probe("mixtures", pr[2]);
                if let Some((c, d)) = e {
                    out.fail(&c, d);
                }
            }
            Err(_) => out.fail("panic", format!("sampling a light panicked: {}", take_panics().join(" | "))),
        }
    }
}

/// Cell of the light a direction leads to, of 16 equally likely ones.
fn cell(l: &Leaf, o: P, d: P) -> Option<usize> {
    match &l.shape {
        Shape::Sphere { c, r } => {
            let w = *c - o;
            let k = r * r / w.dot(w);
            let w1 = w.unit();
            let du = d.unit();
            let a = if w1.x.abs() < 0.8 { P::new(1.0, 0.0, 0.0) } else { P::new(0.0, 1.0, 0.0) };
            let u = w1.cross(a).unit();
            let v = w1.cross(u);
            let phi = (du.dot(v).atan2(du.dot(u)) + PI) / (2.0 * PI);
            let f = if k >= 1.0 {
                (du.dot(w1) + 1.0) / 2.0
            } else {
                // 1 - cos over its largest value, from the sine for accuracy
                let s = du.cross(w1).len();
                let one = s * s / (1.0 + (1.0 - s * s).max(0.0).sqrt());
                one / (k / (1.0 + (1.0 - k).sqrt()))
            };
            if !(-1e-6..=1.0 + 1e-6).contains(&f) {
                return None;
            }
            Some(((f * 4.0) as usize).min(3) * 4 + ((phi * 4.0) as usize).min(3))
        }
        _ => {
            let mut v = vec![];
            model::cuts(&l.shape, &Ray { o, d }, &mut v);
            let c = v.first()?;
            if c.t <= 0.0 {
                return None;
            }
            let at = o + d * c.t;
            match &l.shape {
                Shape::Quad { .. } => Some(((c.uv[0].max(0.0) * 4.0) as usize).min(3) * 4 + ((c.uv[1].max(0.0) * 4.0) as usize).min(3)),
                Shape::Tri { p: t, .. } => {
                    // barycentric coordinates; 16 congruent triangles
                    let (e1, e2) = (t[1] - t[0], t[2] - t[0]);
                    let nn = e1.cross(e2);
                    let q = at - t[0];
                    let k = nn.dot(nn);
                    let (mut a, mut b) = (q.cross(e2).dot(nn) / k, e1.cross(q).dot(nn) / k);
                    let mut id = 0;
                    for _ in 0..2 {
                        let c = 1.0 - a - b;
                        let (s, x, y) = if a > 0.5 {
                            (0, 2.0 * a - 1.0, 2.0 * b)
                        } else if b > 0.5 {
                            (1, 2.0 * a, 2.0 * b - 1.0)
                        } else if c > 0.5 {
                            (2, 2.0 * a, 2.0 * b)
                        } else {
                            (3, 1.0 - 2.0 * a, 1.0 - 2.0 * b)
                        };
                        id = id * 4 + s;
                        a = x;
                        b = y;
                    }
                    Some(id)
                }
                _ => None,
            }
        }
    }
}

fn even(out: &mut RunOut, class: &str, what: &str, cells: &[u32], share: &[f64]) {
    let n: u32 = cells.iter().sum();
    for (k, (&g, &s)) in cells.iter().zip(share).enumerate() {
        let want = n as f64 * s;
        let l = 27.0;
        let tol = (2.0 * l * want).sqrt() + l / 3.0;
        if (g as f64 - want).abs() > tol {
            return out.fail(class, format!("{what}: {g} of {n} draws in cell {k}, should be {want} (+-{tol})"));
        }
    }
}

fn spread(light: &Obj, origin: V, n: u32, out: &mut RunOut) {
    let l = solid(light);
    let h = real(std::slice::from_ref(light)).remove(0);
    let o = p(origin);
    let mut cells = [0u32; 16];
    let mut lost = 0;
    for _ in 0..n {
        match cell(&l, o, of(h.random_direction(o.v()))) {
            Some(k) => cells[k] += 1,
            None => lost += 1,
        }
    }
    out.probe("checked", 1);
    out.probe("spreads", 1);
    // a draw on the very edge may be lost to rounding
    if lost > 3 {
        return out.fail("missed", format!("{lost} of {n} directions from {origin:?} miss {light:?}"));
    }
    even(out, "spread", &format!("directions from {origin:?} toward {light:?}"), &cells, &[1.0 / 16.0; 16]);
}

fn which(leaves: &[Leaf], o: P, d: P) -> Option<usize> {
    let mut v = leaves.iter().enumerate().filter(|(_, l)| hits(l, o, d) != Some(false)).map(|(i, _)| i);
    match (v.next(), v.next()) {
        (Some(i), None) => Some(i),
        _ => None,
    }
}

fn choice(lights: &[Obj], origin: V, normal: V, n: u32, out: &mut RunOut) {
    let leaves: Vec<Leaf> = lights.iter().map(solid).collect();
    let hs = real(lights);
    let o = p(origin);
    let c = ContainerPdf::new(&hs, o.v());
    let mut cells = vec![0u32; lights.len()];
    let mut lost = 0;
    for _ in 0..n {
        match which(&leaves, o, of(c.generate())) {
            Some(k) => cells[k] += 1,
            None => lost += 1,
        }
    }
    out.probe("checked", 1);
    out.probe("choices", 1);
    if lost > 3 + n / 500 {
        return out.fail("missed", format!("{lost} of {n} directions miss the light they were drawn toward"));
    }
    even(out, "choice", "draws per light", &cells, &vec![1.0 / lights.len() as f64; lights.len()]);
    // the mixture: directions of the cosine half are never below the surface
    let nn = p(normal);
    let below: Vec<bool> = leaves.iter().map(|l| (l.centre() - o).unit().dot(nn.unit()) < -0.3).collect();
    let share = below.iter().filter(|b| **b).count() as f64 / lights.len() as f64 * 0.5;
    for first in [true, false] {
        let (mut down, mut down_share) = (0u32, share);
        let cp = CosinePdf::new(nn.v());
        for _ in 0..n {
            let d = of(if first { mix_generate(&c, &cp) } else { mix_generate(&cp, &c) });
            match which(&leaves, o, d) {
                Some(k) if below[k] => down += 1,
                _ => {}
            }
        }
        if share == 0.0 {
            down_share = 0.0;
        }
        even(out, "mixture", &format!("share of draws toward lights below the surface (lights first: {first})"), &[down, n - down], &[down_share, 1.0 - down_share]);
    }
}

fn shapes(normal: V, n: u32, seed: u64, out: &mut RunOut) {
    let w = p(normal).unit();
    let a = if w.x.abs() < 0.8 { P::new(1.0, 0.0, 0.0) } else { P::new(0.0, 1.0, 0.0) };
    let u = w.cross(a).unit();
    let v = w.cross(u);
    out.probe("checked", 1);
    out.probe("bases", 1);
    // the basis is orthonormal, its third axis the normal
    let b = Onb::new(v3(normal));
    let mut r = Rng::new(seed);
    for _ in 0..50 {
        let (x, y) = (p(place(&mut r, [0.0; 3], 2.0)), p(place(&mut r, [0.0; 3], 2.0)));
        let (bx, by) = (of(b.local(x.v())), of(b.local(y.v())));
        if (bx.dot(by) - x.dot(y)).abs() > 1e-9 || (bx.dot(w) - x.z).abs() > 1e-9 {
            return out.fail("basis", format!("the basis around {normal:?} turns {:?} into {:?}", x.arr(), bx.arr()));
        }
    }
    let (mut cos, mut uni) = ([0u32; 32], [0u32; 32]);
    let (cp, sp) = (CosinePdf::new(v3(normal)), SpherePdf::new());
    for _ in 0..n {
        for k in 0..2 {
            let d: Vec3 = if k == 0 { cp.generate() } else { sp.generate() };
            let d = of(d);
            if (d.len() - 1.0).abs() > 1e-9 {
                return out.fail("direction", format!("drawn direction {:?} is not of length one", d.arr()));
            }
            let z = d.dot(w);
            let phi = (d.dot(v).atan2(d.dot(u)) + PI) / (2.0 * PI);
            let f = if k == 0 { z * z } else { (z + 1.0) / 2.0 };
            if k == 0 && z < 0.0 {
                return out.fail("cosine", format!("{:?} is below the surface", d.arr()));
            }
            let i = ((f * 4.0) as usize).min(3) * 8 + ((phi * 8.0) as usize).min(7);
            if k == 0 {
                cos[i] += 1;
            } else {
                uni[i] += 1;
            }
        }
    }
    even(out, "cosine", "cosine density", &cos, &[1.0 / 32.0; 32]);
    even(out, "uniform", "uniform density", &uni, &[1.0 / 32.0; 32]);
}

fn matte(lights: &[Obj], origin: V, normal: V, n: u32, out: &mut RunOut) {
    let leaves: Vec<Leaf> = lights.iter().map(solid).collect();
    let hs = real(lights);
    let (o, w) = (p(origin), p(normal).unit());
    // a small matte triangle around the point
    let a = if w.x.abs() < 0.8 { P::new(1.0, 0.0, 0.0) } else { P::new(0.0, 1.0, 0.0) };
    let u = w.cross(a).unit();
    let v = w.cross(u);
    let s = 0.01;
    let t = Obj::Tri { p: [(o + u * s).arr(), (o + v * s).arr(), (o - (u + v) * s).arr()], uv: None, mat: Mat::Lambert { tex: Tex::Solid([0.3, 0.6, 0.9]), bump: None }, xf: vec![] };
    let h = t.real().remove(0);
    let ray = solstrale::geo::Ray::new((o + w * 0.5 + u * 1e-4).v(), (-w).v());
    let Some(rec) = h.hit(&ray, &RAY_INTERVAL) else {
        return out.fail("hit", "a ray straight down onto a small triangle misses it");
    };
    let at = of(rec.hit_point);
    let below: Vec<bool> = leaves.iter().map(|l| (l.centre() - at).unit().dot(w) < -0.3).collect();
    let share = below.iter().filter(|b| **b).count() as f64 / lights.len() as f64 * 0.5;
    let mut down = 0;
    for _ in 0..n {
        let RayScatter::ScatterPdf(k) = rec.material.scatter(&ray, &rec, &hs) else {
            return out.fail("scatter", "a matte surface does not scatter by a density");
        };
        let d = of(k.ray.direction);
        let mut amb = false;
        let lp = leaves.iter().map(|l| model::light_pdf(l, at, d, &mut amb)).sum::<f64>() / leaves.len() as f64;
        let cos = d.unit().dot(w).max(0.0) / PI;
        if let Some(k) = which(&leaves, at, d) {
            if below[k] {
                down += 1;
            }
        }
        if amb || d.unit().dot(w).abs() < 1e-9 {
            continue;
        }
        out.probe("matte_scatterings", 1);
        let want = cos / (0.5 * lp + 0.5 * cos);
        if (k.probability - want).abs() > 1e-5 * (1.0 + want) {
            return out.fail("weight", format!("matte surface scatters along {:?} with weight {}, should be {want}", d.arr(), k.probability));
        }
    }
    out.probe("checked", 1);
    even(out, "mixture", "share of a matte surface's draws toward lights below it", &[down, n - down], &[share, 1.0 - share]);
}

pub fn shrink(b: &B) -> Vec<B> {
    let without = |l: &Vec<Obj>| -> Vec<Vec<Obj>> {
        (0..l.len())
            .filter(|_| l.len() > 1)
            .map(|i| {
                let mut k = l.clone();
                k.remove(i);
                k
            })
            .collect()
    };
    match b {
        B::Points { lights, origins, n, seed, threads } => {
            let mk = |lights: Vec<Obj>, origins: Vec<V>, n: u32, threads: u32| B::Points { lights, origins, n, seed: *seed, threads };
            let mut v: Vec<B> = without(lights).into_iter().map(|l| mk(l, origins.clone(), *n, *threads)).collect();
            for o in origins {
                if origins.len() > 1 {
                    v.push(mk(lights.clone(), vec![*o], *n, *threads));
                }
            }
            if *threads > 1 {
                v.push(mk(lights.clone(), origins.clone(), *n, 1));
            }
            if *n > 1 {
                v.push(mk(lights.clone(), origins.clone(), n / 2, *threads));
                v.push(mk(lights.clone(), origins.clone(), n - 1, *threads));
            }
            v
        }
        B::Choice { lights, origin, normal, n } => without(lights).into_iter().map(|lights| B::Choice { lights, origin: *origin, normal: *normal, n: *n }).collect(),
        B::Matte { lights, origin, normal, n } => without(lights).into_iter().map(|lights| B::Matte { lights, origin: *origin, normal: *normal, n: *n }).collect(),
        _ => vec![],
    }
}
