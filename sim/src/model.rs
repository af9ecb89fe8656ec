//! A small, independent reference model: geometry by exhaustive search and a
//! straightforward path tracer.  Wherever rounding could decide between two
//! outcomes it says so (`amb`), and such cases are not judged.
use crate::spec::*;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Onb;
use std::f64::consts::PI;
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct P {
    pub x: f64,
    pub y: f64,
    pub z: f64,
}

pub fn p(a: V) -> P {
    P { x: a[0], y: a[1], z: a[2] }
}
pub fn of(a: Vec3) -> P {
    P { x: a.x, y: a.y, z: a.z }
}
impl P {
    pub fn new(x: f64, y: f64, z: f64) -> P {
        P { x, y, z }
    }
    pub fn v(self) -> Vec3 {
        Vec3::new(self.x, self.y, self.z)
    }
    pub fn arr(self) -> V {
        [self.x, self.y, self.z]
    }
    pub fn dot(self, b: P) -> f64 {
        self.x * b.x + self.y * b.y + self.z * b.z
    }
    pub fn cross(self, b: P) -> P {
        P::new(self.y * b.z - self.z * b.y, self.z * b.x - self.x * b.z, self.x * b.y - self.y * b.x)
    }
    pub fn len(self) -> f64 {
        self.dot(self).sqrt()
    }
    pub fn unit(self) -> P {
        self * (1.0 / self.len())
    }
    pub fn times(self, b: P) -> P {
        P::new(self.x * b.x, self.y * b.y, self.z * b.z)
    }
    pub fn finite(self) -> bool {
        self.x.is_finite() && self.y.is_finite() && self.z.is_finite()
    }
    pub fn max_abs(self) -> f64 {
        self.x.abs().max(self.y.abs()).max(self.z.abs())
    }
    fn map(self, f: impl Fn(f64) -> f64) -> P {
        P::new(f(self.x), f(self.y), f(self.z))
    }
}
impl Add for P {
    type Output = P;
    fn add(self, b: P) -> P {
        P::new(self.x + b.x, self.y + b.y, self.z + b.z)
    }
}
impl Sub for P {
    type Output = P;
    fn sub(self, b: P) -> P {
        P::new(self.x - b.x, self.y - b.y, self.z - b.z)
    }
}
impl Mul<f64> for P {
    type Output = P;
    fn mul(self, k: f64) -> P {
        P::new(self.x * k, self.y * k, self.z * k)
    }
}
impl Neg for P {
    type Output = P;
    fn neg(self) -> P {
        P::new(-self.x, -self.y, -self.z)
    }
}

/// Applies a list of transformations, in order.
pub fn xf(list: &[Xf], a: P, skip_move: bool) -> P {
    let mut a = a;
    for x in list {
        a = match *x {
            Xf::RotX(d) => {
                let (s, c) = (d * PI / 180.0).sin_cos();
                P::new(a.x, c * a.y + s * a.z, c * a.z - s * a.y)
            }
            Xf::RotY(d) => {
                let (s, c) = (d * PI / 180.0).sin_cos();
                P::new(c * a.x + s * a.z, a.y, c * a.z - s * a.x)
            }
            Xf::RotZ(d) => {
                let (s, c) = (d * PI / 180.0).sin_cos();
                P::new(c * a.x + s * a.y, c * a.y - s * a.x, a.z)
            }
            Xf::Scale(k) => a * k,
            Xf::Move(v) if !skip_move => a + p(v),
            Xf::Move(_) => a,
        };
    }
    a
}

#[derive(Clone, Debug)]
pub enum Shape<'a> {
    Sphere { c: P, r: f64 },
    Quad { q: P, u: P, v: P },
    Tri { p: [P; 3], uv: [[f64; 2]; 3] },
    Fog { parts: Vec<Leaf<'a>>, density: f64, rgb: P },
}

#[derive(Clone, Debug)]
pub struct Leaf<'a> {
    pub shape: Shape<'a>,
    pub mat: Option<&'a Mat>,
}

pub fn flatten(objs: &[Obj]) -> Vec<Leaf<'_>> {
    let mut v = vec![];
    for o in objs {
        flat(o, &mut v);
    }
    v
}

fn flat<'a>(o: &'a Obj, out: &mut Vec<Leaf<'a>>) {
    match o {
        Obj::Sphere { c, r, mat } => out.push(Leaf { shape: Shape::Sphere { c: p(*c), r: *r }, mat: Some(mat) }),
        Obj::Quad { q, u, v, mat, xf: x } => out.push(Leaf { shape: Shape::Quad { q: xf(x, p(*q), false), u: xf(x, p(*u), true), v: xf(x, p(*v), true) }, mat: Some(mat) }),
        Obj::Tri { p: t, uv, mat, xf: x } => {
            let uv2 = uv.unwrap_or([[0.0; 2]; 3]).map(|a| a.map(|f| f as f64));
            out.push(Leaf { shape: Shape::Tri { p: t.map(|a| xf(x, p(a), false)), uv: uv2 }, mat: Some(mat) })
        }
        Obj::Box { a, b, mat, xf: x } => {
            let lo = P::new(a[0].min(b[0]), a[1].min(b[1]), a[2].min(b[2]));
            let hi = P::new(a[0].max(b[0]), a[1].max(b[1]), a[2].max(b[2]));
            let d = hi - lo;
            let (dx, dy, dz) = (P::new(d.x, 0.0, 0.0), P::new(0.0, d.y, 0.0), P::new(0.0, 0.0, d.z));
            for (q, u, v) in [
                (P::new(lo.x, lo.y, hi.z), dx, dy),
                (P::new(hi.x, lo.y, hi.z), -dz, dy),
                (P::new(hi.x, lo.y, lo.z), -dx, dy),
                (P::new(lo.x, lo.y, lo.z), dz, dy),
                (P::new(lo.x, hi.y, hi.z), dx, -dz),
                (P::new(lo.x, lo.y, lo.z), dx, dz),
            ] {
                out.push(Leaf { shape: Shape::Quad { q: xf(x, q, false), u: xf(x, u, true), v: xf(x, v, true) }, mat: Some(mat) });
            }
        }
        Obj::Fog { boundary, density, rgb } => {
            let mut parts = vec![];
            flat(boundary, &mut parts);
            out.push(Leaf { shape: Shape::Fog { parts, density: *density, rgb: p(*rgb) }, mat: None });
        }
        Obj::Group(l) => {
            for o in l {
                flat(o, out);
            }
        }
    }
}

impl Leaf<'_> {
    /// The tight bounding box.
    pub fn bbox(&self) -> (P, P) {
        let ext = |v: &[P]| {
            let mut lo = P::new(f64::INFINITY, f64::INFINITY, f64::INFINITY);
            let mut hi = -lo;
            for a in v {
                lo = P::new(lo.x.min(a.x), lo.y.min(a.y), lo.z.min(a.z));
                hi = P::new(hi.x.max(a.x), hi.y.max(a.y), hi.z.max(a.z));
            }
            (lo, hi)
        };
        match &self.shape {
            Shape::Sphere { c, r } => {
                let k = P::new(*r, *r, *r);
                (*c - k, *c + k)
            }
            Shape::Quad { q, u, v } => ext(&[*q, *q + *u, *q + *v, *q + *u + *v]),
            Shape::Tri { p, .. } => ext(p),
            Shape::Fog { parts, .. } => {
                let c: Vec<P> = parts.iter().flat_map(|l| <[P; 2]>::from(l.bbox())).collect();
                ext(&c)
            }
        }
    }
    pub fn is_light(&self) -> bool {
        self.mat.is_some_and(|m| m.is_light())
    }
    pub fn centre(&self) -> P {
        let (a, b) = self.bbox();
        (a + b) * 0.5
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Ray {
    pub o: P,
    pub d: P,
}

impl Ray {
    pub fn at(&self, t: f64) -> P {
        self.o + self.d * t
    }
}

/// One crossing of a ray with a surface.
#[derive(Clone, Copy, Debug)]
pub struct Cut {
    pub t: f64,
    pub sure: bool,
    /// Outward unit normal.
    pub n: P,
    pub uv: [f64; 2],
    /// Unit tangents for bump maps.
    pub tan: P,
    pub bit: P,
}

const EDGE: f64 = 2e-5;

pub fn cuts(s: &Shape, r: &Ray, out: &mut Vec<Cut>) {
    match s {
        Shape::Sphere { c, r: rad } => {
            let oc = r.o - *c;
            let a = r.d.dot(r.d);
            let hb = oc.dot(r.d);
            // squared distance of the line from the centre
            let m = oc - r.d * (hb / a);
            let rel = 1.0 - m.dot(m) / (rad * rad);
            let unclear = 1e-7 + 1e-13 * oc.dot(oc) / (rad * rad);
            if rel < -unclear {
                return;
            }
            let sure = rel > unclear;
            let h = rel.max(0.0).sqrt() * rad.abs() / a.sqrt();
            for t in [-hb / a - h, -hb / a + h] {
                let n = (r.at(t) - *c) * (1.0 / rad);
                let n = n.unit();
                let phi = PI - n.z.atan2(n.x);
                let uv = [phi / (2.0 * PI), (-n.y).clamp(-1.0, 1.0).acos() / PI];
                let tan = P::new(0.0, 1.0, 0.0).cross(n).unit();
                out.push(Cut { t, sure, n, uv, tan, bit: n.cross(tan) });
            }
        }
        Shape::Quad { q, u, v } => {
            let nn = u.cross(*v);
            let n = nn.unit();
            let den = n.dot(r.d);
            if den == 0.0 {
                return;
            }
            let t = n.dot(*q - r.o) / den;
            let w = r.at(t) - *q;
            let k = nn.dot(nn);
            let a = w.cross(*v).dot(nn) / k;
            let b = u.cross(w).dot(nn) / k;
            let inside = |e: f64| a >= -e && a <= 1.0 + e && b >= -e && b <= 1.0 + e;
            if !inside(EDGE) || !t.is_finite() {
                return;
            }
            let sure = inside(-EDGE) && den.abs() > 1e-5 * r.d.len();
            out.push(Cut { t, sure, n, uv: [a, b], tan: u.unit(), bit: v.unit() });
        }
        Shape::Tri { p, uv, .. } => {
            let (e1, e2) = (p[1] - p[0], p[2] - p[0]);
            let nn = e1.cross(e2);
            let n = nn.unit();
            let den = n.dot(r.d);
            if den == 0.0 {
                return;
            }
            let t = n.dot(p[0] - r.o) / den;
            let w = r.at(t) - p[0];
            let k = nn.dot(nn);
            let a = w.cross(e2).dot(nn) / k;
            let b = e1.cross(w).dot(nn) / k;
            let inside = |e: f64| a >= -e && b >= -e && a + b <= 1.0 + e;
            if !inside(EDGE) || !t.is_finite() {
                return;
            }
            let sure = inside(-EDGE) && den.abs() > 1e-5 * r.d.len();
            let c = 1.0 - a - b;
            let (d1, d2) = ([uv[1][0] - uv[0][0], uv[1][1] - uv[0][1]], [uv[2][0] - uv[0][0], uv[2][1] - uv[0][1]]);
            let det = d1[0] * d2[1] - d1[1] * d2[0];
            let tan = ((e1 * d2[1] - e2 * d1[1]) * (1.0 / det)).unit();
            let bit = ((e2 * d1[0] - e1 * d2[0]) * (1.0 / det)).unit();
            out.push(Cut { t, sure, n, uv: [c * uv[0][0] + a * uv[1][0] + b * uv[2][0], c * uv[0][1] + a * uv[1][1] + b * uv[2][1]], tan, bit });
        }
        Shape::Fog { parts, .. } => {
            for l in parts {
                cuts(&l.shape, r, out);
            }
        }
    }
}

pub enum Draw<'a> {
    Const(f64),
    Rng(&'a mut crate::prng::Rng),
}

impl Draw<'_> {
    pub fn f(&mut self) -> f64 {
        match self {
            Draw::Const(c) => *c,
            Draw::Rng(r) => r.f(),
        }
    }
}

/// The stretch of a ray inside a convex boundary, if it is clear.
pub fn inside(parts: &[Leaf], r: &Ray, amb: &mut bool) -> Option<(f64, f64)> {
    let mut v = vec![];
    for l in parts {
        cuts(&l.shape, r, &mut v);
    }
    if v.iter().any(|c| !c.sure) {
        *amb = true;
    }
    v.sort_by(|a, b| a.t.total_cmp(&b.t));
    if v.len() < 2 {
        return None;
    }
    if v[1].t - v[0].t < 2e-3 {
        *amb = true;
    }
    Some((v[0].t, v[1].t))
}

#[derive(Clone, Debug)]
pub struct Near {
    pub leaf: usize,
    pub cut: Cut,
    /// Other leaves hit at the same distance.
    pub ties: Vec<(usize, Cut)>,
}

/// Nearest hit over all leaves within [lo, hi] (in units of the ray direction).
pub fn nearest(leaves: &[Leaf], r: &Ray, lo: f64, hi: f64, draw: &mut Draw, amb: &mut bool) -> Option<Near> {
    let len = r.d.len();
    let mut all: Vec<(usize, Cut)> = vec![];
    let mut buf = vec![];
    for (i, l) in leaves.iter().enumerate() {
        buf.clear();
        if let Shape::Fog { parts, density, .. } = &l.shape {
            let mut a = false;
            if let Some((t1, t2)) = inside(parts, r, &mut a) {
                let (s, e) = (t1.max(lo), t2.min(hi));
                let s0 = s.max(0.0);
                if s < e {
                    let d = -draw.f().ln() / density;
                    let room = (e - s0) * len;
                    if (d - room).abs() < 1e-6 * (1.0 + d.abs()) {
                        a = true;
                    }
                    if (e - s) * len < 1e-6 {
                        a = true;
                    }
                    let t = s0 + d / len;
                    if d <= room {
                        all.push((i, Cut { t, sure: true, n: P::default(), uv: [0.0; 2], tan: P::default(), bit: P::default() }));
                    }
                } else if (s - e) * len < 1e-6 {
                    a = true;
                }
            }
            if a {
                // whatever happens in there could be the nearest
                *amb = true;
            }
            continue;
        }
        cuts(&l.shape, r, &mut buf);
        for c in &buf {
            let eps = 1e-7 * (1.0 + c.t.abs());
            if c.t < lo - eps || c.t > hi + eps {
                continue;
            }
            let mut c = *c;
            if (c.t - lo).abs() <= eps || (c.t - hi).abs() <= eps {
                c.sure = false;
            }
            all.push((i, c));
        }
    }
    let best = all.iter().filter(|c| c.1.sure).map(|c| c.1.t).fold(f64::INFINITY, f64::min);
    let eps = if best.is_finite() { 1e-8 * (1.0 + best.abs()) } else { 0.0 };
    if all.iter().any(|c| !c.1.sure && c.1.t <= best + eps) {
        *amb = true;
    }
    if !best.is_finite() {
        return None;
    }
    let mut at: Vec<(usize, Cut)> = all.into_iter().filter(|c| c.1.sure && c.1.t <= best + eps).collect();
    let first = at.iter().position(|c| c.1.t == best).unwrap();
    let (leaf, cut) = at.remove(first);
    Some(Near { leaf, cut, ties: at })
}

/// Colour of a texture (mirrors the documented lookup: wrapping, v upwards).
pub fn texel(t: &Tex, uv: [f64; 2], amb: &mut bool) -> P {
    match t {
        Tex::Solid(c) => p(*c),
        Tex::Image(i) => {
            let u = uv[0].abs() % 1.0;
            let v = 1.0 - uv[1].abs() % 1.0;
            let (x, y) = (u * (i.w as f64 - 1.0), v * (i.h as f64 - 1.0));
            let near = |f: f64, n: u32| n > 1 && (f - f.round()).abs() < 1e-4 * n as f64;
            if near(x, i.w) || near(y, i.h) || (i.w > 1 && (uv[0].abs() - uv[0].abs().round()).abs() < 1e-5) || (i.h > 1 && (uv[1].abs() - uv[1].abs().round()).abs() < 1e-5) {
                *amb = true;
            }
            let (x, y) = ((x as u32).min(i.w - 1), (y as u32).min(i.h - 1));
            let c = i.px[(y * i.w + x) as usize];
            P::new(c[0] as f64, c[1] as f64, c[2] as f64) * (1.0 / 255.0)
        }
    }
}

/// Shading normal: the geometric one on the ray's side, bent by a bump map.
pub fn shading_normal(m: &Mat, c: &Cut, facing: P, draw: &mut Draw, amb: &mut bool) -> P {
    match m {
        Mat::Lambert { bump, .. } | Mat::Metal { bump, .. } | Mat::Glass { bump, .. } => match bump {
            None => facing,
            Some(b) => {
                let k = texel(b, c.uv, amb) * 2.0 - P::new(1.0, 1.0, 1.0);
                if !c.tan.finite() || !c.bit.finite() {
                    *amb = true;
                }
                c.tan * k.x + c.bit * k.y + facing * k.z
            }
        },
        Mat::Light { .. } => facing,
        Mat::Blend { a, b, f } => {
            if draw.f() > *f {
                shading_normal(a, c, facing, draw, amb)
            } else {
                shading_normal(b, c, facing, draw, amb)
            }
        }
    }
}

pub const RAY_MIN: f64 = 0.001;

/// Density of sampling this light's direction `d` from `o`.
pub fn light_pdf(l: &Leaf, o: P, d: P, amb: &mut bool) -> f64 {
    let ray = Ray { o, d };
    let one = std::slice::from_ref(l);
    let Some(h) = nearest(one, &ray, RAY_MIN, f64::INFINITY, &mut Draw::Const(0.5), amb) else {
        return 0.0;
    };
    match &l.shape {
        Shape::Sphere { c, r } => {
            let d2 = (*c - o).dot(*c - o);
            let k = r * r / d2;
            if (k - 1.0).abs() < 1e-9 {
                *amb = true;
            }
            if k >= 1.0 {
                return 1.0 / (4.0 * PI);
            }
            // 1 - sqrt(1-k), without cancellation
            let one_minus_cos = k / (1.0 + (1.0 - k).sqrt());
            if k < 1e-7 {
                *amb = true;
            }
            1.0 / (2.0 * PI * one_minus_cos)
        }
        Shape::Quad { u, v, .. } => {
            let area = u.cross(*v).len();
            h.cut.t * h.cut.t * d.dot(d) / ((d.dot(h.cut.n) / d.len()).abs() * area)
        }
        Shape::Tri { p, .. } => {
            let area = (p[1] - p[0]).cross(p[2] - p[0]).len() * 0.5;
            h.cut.t * h.cut.t * d.dot(d) / ((d.dot(h.cut.n) / d.len()).abs() * area)
        }
        Shape::Fog { .. } => unreachable!("fog is no light"),
    }
}

/// A point (or direction) on the light as the draws decide.
pub fn light_dir(l: &Leaf, o: P, draw: &mut Draw, amb: &mut bool) -> P {
    match &l.shape {
        Shape::Sphere { c, r } => {
            let w = *c - o;
            let d2 = w.dot(w);
            let k = r * r / d2;
            if (k - 1.0).abs() < 1e-9 || k < 1e-7 {
                *amb = true;
            }
            if k >= 1.0 {
                return in_sphere(draw).unit();
            }
            let (r1, r2) = (draw.f(), draw.f());
            let z = 1.0 + r2 * ((1.0 - k).sqrt() - 1.0);
            let s = (1.0 - z * z).max(0.0).sqrt();
            let phi = 2.0 * PI * r1;
            local(w, P::new(phi.cos() * s, phi.sin() * s, z), amb)
        }
        Shape::Quad { q, u, v } => {
            let (a, b) = (draw.f(), draw.f());
            *q + *u * a + *v * b - o
        }
        Shape::Tri { p, .. } => {
            let (mut a, mut b) = (draw.f(), draw.f());
            if a + b > 1.0 {
                a = 1.0 - a;
                b = 1.0 - b;
            }
            p[0] + (p[1] - p[0]) * a + (p[2] - p[0]) * b - o
        }
        Shape::Fog { .. } => unreachable!("fog is no light"),
    }
}

/// Coordinates in the orthonormal basis around w (which of the many bases is
/// the crate's own, publicly visible choice).
pub fn local(w: P, a: P, amb: &mut bool) -> P {
    if (w.unit().x.abs() - 0.9).abs() < 1e-7 {
        *amb = true;
    }
    of(Onb::new(w.v()).local(a.v()))
}

pub fn in_sphere(draw: &mut Draw) -> P {
    loop {
        let a = P::new(draw.f() * 2.0 - 1.0, draw.f() * 2.0 - 1.0, draw.f() * 2.0 - 1.0);
        if a.dot(a) < 1.0 {
            return a;
        }
    }
}

fn cosine_dir(draw: &mut Draw) -> P {
    let (r1, r2) = (draw.f(), draw.f());
    let phi = 2.0 * PI * r1;
    P::new(phi.cos() * r2.sqrt(), phi.sin() * r2.sqrt(), (1.0 - r2).sqrt())
}

/// What arrives along a ray.
#[derive(Clone, Copy, Debug)]
pub struct Light {
    pub rgb: P,
    pub half: Option<f64>,
    pub len: f64,
}

impl Light {
    pub fn seen(&self) -> P {
        match self.half {
            None => self.rgb,
            Some(h) => self.rgb * (1.0 / (1.0 + self.len / h)),
        }
    }
}

pub struct World<'a> {
    pub leaves: Vec<Leaf<'a>>,
    /// Indices of the lights, in the order the renderer keeps them.
    pub lights: Vec<usize>,
    pub bg: P,
}

pub fn lights_in_order(leaves: &[Leaf], real: &[solstrale::hittable::Hittables]) -> Option<Vec<usize>> {
    use solstrale::hittable::Hittable;
    let mut used = vec![false; leaves.len()];
    let mut v = vec![];
    // (size, centre) of every light, in the order of the centres' first coordinates
    let mut known: Vec<(usize, P, P)> = leaves.iter().enumerate().filter(|(_, f)| f.is_light()).map(|(i, f)| {
        let (lo, hi) = f.bbox();
        (i, f.centre(), hi - lo)
    }).collect();
    known.sort_by(|a, b| a.1.x.total_cmp(&b.1.x));
    for l in real {
        let b = l.bounding_box();
        let c = of(b.center());
        let d = P::new(b.x.size(), b.y.size(), b.z.size());
        // the closest match of those within the tolerance
        let mut best: Option<(f64, usize)> = None;
        let near = 1e-9 * (1.0 + c.max_abs());
        let from = known.partition_point(|k| k.1.x <= c.x - near);
        for &(i, kc, kd) in known[from..].iter().take_while(|k| k.1.x < c.x + near) {
            let (dc, ds) = ((kc - c).max_abs(), (kd - d).max_abs());
            if !used[i] && dc < near && ds < 1.1e-4 * (1.0 + d.max_abs()) && best.is_none_or(|b| ds < b.0 || ds == b.0 && i < b.1) {
                best = Some((ds, i));
            }
        }
        let i = best?.1;
        used[i] = true;
        v.push(i);
    }
    if used.iter().zip(leaves).any(|(u, l)| l.is_light() && !u) {
        return None;
    }
    Some(v)
}

pub enum Surface<'a> {
    Mat(&'a Mat),
    Fog(P),
}

pub struct Seen<'a> {
    pub t: f64,
    pub at: P,
    pub n: P,
    pub front: bool,
    pub cut: Cut,
    pub what: Surface<'a>,
    pub leaf: usize,
}

/// A scattered ray, or emitted light.
pub enum Scat {
    Emit { rgb: P, half: Option<f64> },
    Basic { rgb: P, d: P },
    Pdf { rgb: P, d: P, prob: f64 },
}

impl<'a> World<'a> {
    pub fn look(&self, r: &Ray, draw: &mut Draw, amb: &mut bool) -> Option<Seen<'a>> {
        let h = nearest(&self.leaves, r, RAY_MIN, f64::INFINITY, draw, amb)?;
        if !h.ties.is_empty() {
            *amb = true;
        }
        let leaf = &self.leaves[h.leaf];
        let at = r.at(h.cut.t);
        match &leaf.shape {
            Shape::Fog { rgb, .. } => Some(Seen { t: h.cut.t, at, n: in_sphere(draw).unit(), front: false, cut: h.cut, what: Surface::Fog(*rgb), leaf: h.leaf }),
            _ => {
                let m = leaf.mat.unwrap();
                let cos = r.d.dot(h.cut.n) / r.d.len();
                if cos.abs() < 1e-7 {
                    *amb = true;
                }
                let front = cos < 0.0;
                let facing = if front { h.cut.n } else { -h.cut.n };
                let n = shading_normal(m, &h.cut, facing, draw, amb);
                Some(Seen { t: h.cut.t, at, n, front, cut: h.cut, what: Surface::Mat(m), leaf: h.leaf })
            }
        }
    }

    pub fn lights_pdf(&self, o: P, d: P, amb: &mut bool) -> f64 {
        self.lights.iter().map(|&i| light_pdf(&self.leaves[i], o, d, amb)).sum::<f64>() / self.lights.len() as f64
    }

    fn lights_dir(&self, o: P, draw: &mut Draw, amb: &mut bool) -> P {
        let k = draw.f() * self.lights.len() as f64;
        if matches!(draw, Draw::Const(_)) && self.lights.len() > 1 && (k - k.round()).abs() < 1e-6 {
            *amb = true;
        }
        let i = (k as usize).min(self.lights.len() - 1);
        light_dir(&self.leaves[self.lights[i]], o, draw, amb)
    }

    pub fn scatter(&self, r: &Ray, s: &Seen, draw: &mut Draw, amb: &mut bool) -> Scat {
        match s.what {
            Surface::Fog(rgb) => {
                let d = if draw.f() < 0.5 { self.lights_dir(s.at, draw, amb) } else { in_sphere(draw).unit() };
                let k = 1.0 / (4.0 * PI);
                let mix = 0.5 * self.lights_pdf(s.at, d, amb) + 0.5 * k;
                Scat::Pdf { rgb, d, prob: k / mix }
            }
            Surface::Mat(m) => self.scatter_mat(m, r, s, draw, amb),
        }
    }

    fn scatter_mat(&self, m: &Mat, r: &Ray, s: &Seen, draw: &mut Draw, amb: &mut bool) -> Scat {
        match m {
            Mat::Light { rgb, half } => Scat::Emit { rgb: if s.front { p(*rgb) } else { P::default() }, half: *half },
            Mat::Blend { a, b, f } => {
                if draw.f() > *f {
                    self.scatter_mat(a, r, s, draw, amb)
                } else {
                    self.scatter_mat(b, r, s, draw, amb)
                }
            }
            Mat::Lambert { tex, .. } => {
                let rgb = texel(tex, s.cut.uv, amb);
                let d = if draw.f() < 0.5 {
                    self.lights_dir(s.at, draw, amb)
                } else {
                    let a = cosine_dir(draw);
                    local(s.n, a, amb)
                };
                Scat::Pdf { rgb, d, prob: self.matte_prob(s.at, s.n, d, amb) }
            }
            Mat::Metal { tex, fuzz, .. } => {
                let rgb = texel(tex, s.cut.uv, amb);
                let d = reflect(r.d.unit(), s.n) + in_sphere(draw) * *fuzz;
                if d.len() < 1e-3 {
                    *amb = true;
                }
                Scat::Basic { rgb, d }
            }
            Mat::Glass { tex, ior, .. } => {
                let rgb = texel(tex, s.cut.uv, amb);
                let (can, refl, a, b) = glass(r.d, s.n, s.front, *ior, amb);
                let c = draw.f();
                if can && (refl - c).abs() < 1e-6 && matches!(draw, Draw::Const(_)) {
                    *amb = true;
                }
                Scat::Basic { rgb, d: if !can || refl > c { a } else { b } }
            }
        }
    }

    /// Weight of a matte scattering into direction d.
    pub fn matte_prob(&self, at: P, n: P, d: P, amb: &mut bool) -> f64 {
        let du = d.unit();
        let cos_pdf = (du.dot(n.unit()) / PI).max(0.0);
        let mix = 0.5 * self.lights_pdf(at, d, amb) + 0.5 * cos_pdf;
        let c = n.dot(du);
        if c.abs() < 1e-9 {
            *amb = true;
        }
        (if c < 0.0 { 0.0 } else { c / PI }) / mix
    }

    pub fn trace(&self, r: &Ray, depth: u32, max_depth: u32, len: f64, draw: &mut Draw, amb: &mut bool) -> Light {
        let Some(s) = self.look(r, draw, amb) else {
            return Light { rgb: self.bg, half: None, len: 0.0 };
        };
        self.trace_from(r, &s, depth, max_depth, len, draw, amb)
    }

    #[allow(clippy::too_many_arguments)]
    pub fn trace_from(&self, r: &Ray, s: &Seen, depth: u32, max_depth: u32, len: f64, draw: &mut Draw, amb: &mut bool) -> Light {
        if depth >= max_depth {
            return Light { rgb: P::default(), half: None, len: 0.0 };
        }
        let total = len + s.t * r.d.len();
        match self.scatter(r, s, draw, amb) {
            Scat::Emit { rgb, half } => Light { rgb, half, len: total },
            Scat::Basic { rgb, d } => {
                let l = self.trace(&Ray { o: s.at, d }, depth + 1, max_depth, total, draw, amb);
                Light { rgb: rgb.times(l.rgb), ..l }
            }
            Scat::Pdf { rgb, d, prob } => {
                let l = self.trace(&Ray { o: s.at, d }, depth + 1, max_depth, total, draw, amb);
                let c = (rgb * prob).times(l.rgb);
                Light { rgb: c.map(|v| if v.is_nan() { 0.0 } else { v.min(3.0) }), ..l }
            }
        }
    }

    /// The surface colour.
    pub fn albedo(&self, s: &Seen, draw: &mut Draw, amb: &mut bool) -> P {
        match s.what {
            Surface::Fog(c) => c,
            Surface::Mat(m) => Self::mat_albedo(m, s, draw, amb),
        }
    }

    fn mat_albedo(m: &Mat, s: &Seen, draw: &mut Draw, amb: &mut bool) -> P {
        match m {
            Mat::Light { rgb, .. } => {
                if s.front {
                    p(*rgb)
                } else {
                    P::default()
                }
            }
            Mat::Blend { a, b, f } => Self::mat_albedo(if draw.f() > *f { a } else { b }, s, draw, amb),
            Mat::Lambert { tex, .. } | Mat::Metal { tex, .. } | Mat::Glass { tex, .. } => texel(tex, s.cut.uv, amb),
        }
    }

    /// Whether the (drawn) material at the hit emits.
    pub fn emits(m: &Mat, draw: &mut Draw) -> bool {
        match m {
            Mat::Light { .. } => true,
            Mat::Blend { a, b, f } => Self::emits(if draw.f() > *f { a } else { b }, draw),
            _ => false,
        }
    }

    /// What any of the shaders shows for a hit.
    pub fn shade(&self, sh: &Sh, r: &Ray, s: &Seen, draw: &mut Draw, amb: &mut bool) -> P {
        match sh {
            Sh::Path(d) => self.trace_from(r, s, 0, *d, 0.0, draw, amb).seen(),
            Sh::Albedo => self.albedo(s, draw, amb),
            Sh::Normal => s.n,
            Sh::Simple => {
                let a = self.albedo(s, draw, amb);
                let emits = match s.what {
                    Surface::Mat(m) => Self::emits(m, draw),
                    _ => false,
                };
                if emits {
                    a
                } else {
                    a * (s.n.dot(P::new(1.0, 1.0, -1.0)) * 0.5 + 0.75)
                }
            }
        }
    }
}

pub fn reflect(d: P, n: P) -> P {
    d - n * (2.0 * d.dot(n))
}

/// (can refract, reflectance, reflected, refracted)
pub fn glass(d: P, n: P, front: bool, ior: f64, amb: &mut bool) -> (bool, f64, P, P) {
    let ratio = if front { 1.0 / ior } else { ior };
    let d = d.unit();
    let cos = (-d).dot(n).min(1.0);
    let sin = (1.0 - cos * cos).max(0.0).sqrt();
    if (ratio * sin - 1.0).abs() < 1e-9 {
        *amb = true;
    }
    let can = ratio * sin <= 1.0;
    let r0 = ((1.0 - ratio) / (1.0 + ratio)).powi(2);
    let refl = r0 + (1.0 - r0) * (1.0 - cos).powi(5);
    let perp = (d + n * cos) * ratio;
    let par = -n * (1.0 - perp.dot(perp)).abs().sqrt();
    (can, refl, reflect(d, n), perp + par)
}

/// The ray through an image position, for lens offset (dx, dy) in units of the lens radius.
pub fn cam_ray(c: &Cam, w: usize, h: usize, s: f64, t: f64, lens: (f64, f64)) -> Ray {
    let (from, at, up) = (p(c.from), p(c.at), p(c.up));
    let back = from - at;
    let dist = back.len();
    let wv = back.unit();
    let u = up.cross(wv).unit();
    let v = wv.cross(u);
    let vh = 2.0 * (c.fov * PI / 360.0).tan() * dist;
    let vw = vh * w as f64 / h as f64;
    let target = at + u * (vw * (s - 0.5)) + v * (vh * (t - 0.5));
    let k = if c.aperture > 0.0 { c.aperture * 0.5 } else { 0.0 };
    let o = from + u * (lens.0 * k) + v * (lens.1 * k);
    Ray { o, d: target - o }
}

/// The value every draw has when the simulator is told to make all of them `c`.
pub fn eff(c: f64) -> f64 {
    let hi = (c * 4294967296.0) as u64 & 0xffff_ffff;
    ((hi << 32 | hi) >> 12) as f64 / 4503599627370496.0
}

/// A value for all draws that every rejection loop accepts.
pub fn gen_const(r: &mut crate::prng::Rng) -> f64 {
    loop {
        let c = r.range(0.23, 0.77);
        if (c - 0.5f64).abs() > 0.005 {
            return c;
        }
    }
}

/// Value of f at r, unless the smallest changes of the ray change it too.
pub fn stable(r: &Ray, size: f64, tol: f64, f: &dyn Fn(&Ray) -> (P, bool)) -> Option<P> {
    let (a, amb) = f(r);
    if amb {
        return None;
    }
    let k = r.d.len();
    for s in [P::new(1.0, -0.7, 0.4), P::new(-0.6, 0.5, 0.9)] {
        let q = Ray { o: r.o + P::new(s.y, s.z, s.x) * size, d: r.d + s * (size * k) };
        let (b, amb) = f(&q);
        if amb || (a - b).max_abs() > tol * (1.0 + a.max_abs()) {
            return None;
        }
        // NaN never compares as different
        if a.finite() != b.finite() {
            return None;
        }
    }
    Some(a)
}
