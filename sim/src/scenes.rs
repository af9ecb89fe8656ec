//! Random scenes of every kind of object and material.
use crate::prng::Rng;
use crate::spec::*;
use crate::tiles::gen_cam;
use solstrale::geo::vec3::Vec3;

pub struct Opts {
    pub w: i64,
    pub h: i64,
    pub spp: i64,
    pub objs: i64,
    pub fog: bool,
    pub posts: bool,
    pub depth: i64,
}

fn unit(r: &mut Rng) -> V {
    loop {
        let v = [r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0)];
        let l = v3(v).length();
        if l > 0.1 && l <= 1.0 {
            return arr(v3(v) * (1.0 / l));
        }
    }
}

pub fn rgb(r: &mut Rng) -> V {
    if r.chance(0.05) {
        // the ends, too
        return [0, 1, 2].map(|_| *r.pick(&[0.0, 1.0, 0.5]));
    }
    [r.range(0.05, 0.95), r.range(0.05, 0.95), r.range(0.05, 0.95)]
}

pub fn image(r: &mut Rng, max: i64) -> ImgSpec {
    let (w, h) = (r.int(1, max), r.int(1, max));
    ImgSpec { w: w as u32, h: h as u32, px: (0..w * h).map(|_| [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8]).collect() }
}

pub fn tex(r: &mut Rng) -> Tex {
    if r.chance(0.25) {
        Tex::Image(image(r, 4))
    } else {
        Tex::Solid(rgb(r))
    }
}

fn bump(r: &mut Rng) -> Option<Tex> {
    if r.chance(0.15) {
        // a normal map: mostly upright
        let (w, h) = (r.int(1, 3), r.int(1, 3));
        let px = (0..w * h).map(|_| [r.int(90, 165) as u8, r.int(90, 165) as u8, r.int(200, 255) as u8]).collect();
        Some(Tex::Image(ImgSpec { w: w as u32, h: h as u32, px }))
    } else {
        None
    }
}

fn ior(r: &mut Rng) -> f64 {
    match r.below(10) {
        // no refraction at all, or a bubble
        0 => 1.0,
        1 => r.range(0.5, 0.95),
        _ => r.range(1.05, 2.4),
    }
}

pub fn mat(r: &mut Rng, depth: u32) -> Mat {
    match r.below(10) {
        0..=4 => Mat::Lambert { tex: tex(r), bump: bump(r) },
        5 | 6 => Mat::Metal { tex: tex(r), bump: bump(r), fuzz: *r.pick(&[0.0, 0.0, 0.05, 0.05, 0.3, 0.3, 1.0, 1.7]) },
        7 | 8 => Mat::Glass { tex: if r.chance(0.5) { Tex::Solid([1.0, 1.0, 1.0]) } else { tex(r) }, bump: bump(r), ior: ior(r) },
        _ if depth > 0 => Mat::Blend { a: Box::new(mat(r, depth - 1)), b: Box::new(mat(r, depth - 1)), f: if r.chance(0.2) { *r.pick(&[0.0, 1.0]) } else { r.range(0.1, 0.9) } },
        _ => Mat::Lambert { tex: tex(r), bump: None },
    }
}

pub fn light(r: &mut Rng) -> Mat {
    let k = if r.chance(0.03) { r.log(15.0, 1e8) } else { r.log(0.3, 15.0) };
    let (mut g, mut b) = (r.range(0.5, 1.0), r.range(0.3, 1.0));
    if r.chance(0.1) {
        (g, b) = *r.pick(&[(0.0, 0.0), (0.0, 1.0), (2.0, 0.0)]);
    }
    Mat::Light { rgb: [k, k * g, k * b], half: if r.chance(0.4) { Some(r.log(0.5, 50.0)) } else { None } }
}

pub fn xfs(r: &mut Rng) -> Vec<Xf> {
    if r.chance(0.5) {
        return vec![];
    }
    (0..if r.chance(0.1) { r.int(4, 8) } else { r.int(1, 3) })
        .map(|_| match r.below(5) {
            0 => Xf::RotX(r.range(-180.0, 180.0)),
            1 => Xf::RotY(r.range(-180.0, 180.0)),
            2 => Xf::RotZ(r.range(-180.0, 180.0)),
            3 => Xf::Scale(r.log(0.5, 2.0)),
            _ => Xf::Move([r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0)]),
        })
        .collect()
}

pub fn at(c: V, o: V) -> V {
    arr(v3(c) + v3(o))
}

pub fn place(r: &mut Rng, c: V, spread: f64) -> V {
    let u = unit(r);
    at(c, arr(v3(u) * (spread * r.f().cbrt())))
}

pub fn prim(r: &mut Rng, c: V, size: f64, m: Mat) -> Obj {
    match r.below(4) {
        0 | 1 => Obj::Sphere { c, r: size * r.range(0.4, 1.0), mat: m },
        2 => {
            let u = unit(r);
            let mut v = unit(r);
            while v3(u).cross(v3(v)).length() < 0.3 {
                v = unit(r);
            }
            let (u, v) = (v3(u) * size * r.range(0.5, 2.0), v3(v) * size * r.range(0.5, 2.0));
            Obj::Quad { q: arr(v3(c) - (u + v) * 0.5), u: arr(u), v: arr(v), mat: m, xf: xfs(r) }
        }
        _ => loop {
            let p = [place(r, c, size * 1.5), place(r, c, size * 1.5), place(r, c, size * 1.5)];
            let n: Vec3 = (v3(p[1]) - v3(p[0])).cross(v3(p[2]) - v3(p[0]));
            if n.length() > 0.2 * size * size {
                let uv = if r.chance(0.5) { Some([[r.f() as f32, r.f() as f32], [r.f() as f32, r.f() as f32], [r.f() as f32, r.f() as f32]]) } else { None };
                return Obj::Tri { p, uv, mat: m, xf: xfs(r) };
            }
        },
    }
}

pub fn object(r: &mut Rng, c: V, fog: bool) -> Obj {
    let size = r.log(0.2, 1.5);
    match r.below(12) {
        0 => {
            let h = [size, size * r.range(0.3, 1.5), size * r.range(0.3, 1.5)];
            Obj::Box { a: arr(v3(c) - v3(h)), b: at(c, h), mat: mat(r, 1), xf: xfs(r) }
        }
        1 | 2 if fog => {
            let m = Mat::Lambert { tex: Tex::Solid([1.0, 1.0, 1.0]), bump: None };
            let b = if r.chance(0.5) {
                Obj::Sphere { c, r: size, mat: m }
            } else {
                let h = [size, size, size];
                Obj::Box { a: arr(v3(c) - v3(h)), b: at(c, h), mat: m, xf: vec![] }
            };
            Obj::Fog { boundary: Box::new(b), density: r.log(0.05, 3.0), rgb: rgb(r) }
        }
        3 => {
            let n = r.int(1, 5);
            Obj::Group(
                (0..n)
                    .map(|_| {
                        let p = place(r, c, size);
                        let m = mat(r, 1);
                        prim(r, p, size * 0.5, m)
                    })
                    .collect(),
            )
        }
        _ => {
            let m = mat(r, 2);
            prim(r, c, size, m)
        }
    }
}

pub fn post(r: &mut Rng) -> Post {
    match r.below(4) {
        0 => Post::Nop,
        1 => Post::Oidn,
        _ => Post::Bloom { frac: r.range(0.01, 0.4), threshold: if r.chance(0.5) { Some(r.range(0.1, 1.2)) } else { None }, max: if r.chance(0.5) { Some(r.range(1.3, 4.0)) } else { None } },
    }
}

pub fn scene(r: &mut Rng, o: &Opts) -> SceneSpec {
    let cam = gen_cam(r);
    let spread = (0.3 * v3(cam.at).length().max(1.0)).clamp(1.0, 3.0);
    let mut objs = vec![];
    for _ in 0..r.int(0, o.objs) {
        let c = place(r, cam.at, spread);
        objs.push(object(r, c, o.fog));
    }
    for _ in 0..r.int(1, 3) {
        let c = place(r, cam.at, spread * 1.5);
        let m = light(r);
        let s = r.log(0.1, 1.5);
        objs.push(prim(r, c, s, m));
    }
    // lights are not always last
    let k = r.below(objs.len() as u64) as usize;
    objs.rotate_left(k);
    let (w, h, spp) = match r.below(28) {
        // wide or tall, or of many samples
        0 => {
            let w = r.log(1.0, 120.0);
            let h = r.log(1.0, (300.0 / w).min(120.0));
            let (w, h) = if r.chance(0.5) { (w, h) } else { (h, w) };
            (w as usize, h as usize, r.int(1, o.spp.min(2)) as u32)
        }
        1 => (r.int(1, 2) as usize, 1, r.log(10.0, 120.0) as u32),
        _ => (r.int(1, o.w) as usize, r.int(1, o.h) as usize, r.int(1, o.spp) as u32),
    };
    SceneSpec {
        objs,
        cam,
        bg: match r.below(20) {
            0..=5 => [0.0, 0.0, 0.0],
            6 => [r.log(0.01, 20.0), r.log(0.01, 20.0), r.log(0.01, 20.0)],
            _ => rgb(r),
        },
        w,
        h,
        spp,
        shader: match r.below(8) {
            0 => Sh::Albedo,
            1 => Sh::Normal,
            2 => Sh::Simple,
            _ => Sh::Path(r.int(1, o.depth) as u32),
        },
        posts: if o.posts { (0..r.int(0, 3)).map(|_| post(r)).collect() } else { vec![] },
        strat: match r.below(3) {
            0 => Strat::Every,
            1 => Strat::Interval(r.log(1.0, 1e9) as u64),
            _ => Strat::Final,
        },
    }
}

/// Smaller versions of a scene.
pub fn shrink(s: &SceneSpec) -> Vec<SceneSpec> {
    let mut v = vec![];
    if s.objs.len() > 2 {
        let k = s.objs.len() / 2;
        v.push(SceneSpec { objs: s.objs[..k].to_vec(), ..s.clone() });
        v.push(SceneSpec { objs: s.objs[k..].to_vec(), ..s.clone() });
    }
    for i in 0..s.objs.len() {
        if s.objs.len() > 1 {
            let mut o = s.objs.clone();
            o.remove(i);
            v.push(SceneSpec { objs: o, ..s.clone() });
        }
    }
    for w in [1, 2, s.w / 2] {
        if w >= 1 && w < s.w {
            v.push(SceneSpec { w, ..s.clone() });
        }
    }
    for h in [1, 2, s.h / 2] {
        if h >= 1 && h < s.h {
            v.push(SceneSpec { h, ..s.clone() });
        }
    }
    for spp in [1, 2, s.spp / 2, s.spp.saturating_sub(1)] {
        if spp >= 1 && spp < s.spp {
            v.push(SceneSpec { spp, ..s.clone() });
        }
    }
    for i in 0..s.posts.len() {
        let mut p = s.posts.clone();
        p.remove(i);
        v.push(SceneSpec { posts: p, ..s.clone() });
    }
    if let Sh::Path(d) = s.shader {
        for k in [1, 2, d / 2] {
            if k >= 1 && k < d {
                v.push(SceneSpec { shader: Sh::Path(k), ..s.clone() });
            }
        }
    }
    for i in 0..s.objs.len() {
        let simple = match &s.objs[i] {
            Obj::Quad { q, u, v, mat, xf } if !xf.is_empty() => Some(Obj::Quad { q: *q, u: *u, v: *v, mat: mat.clone(), xf: vec![] }),
            Obj::Tri { p, uv, mat, xf } if !xf.is_empty() => Some(Obj::Tri { p: *p, uv: *uv, mat: mat.clone(), xf: vec![] }),
            Obj::Box { a, b, mat, xf } if !xf.is_empty() => Some(Obj::Box { a: *a, b: *b, mat: mat.clone(), xf: vec![] }),
            Obj::Group(l) if l.len() == 1 => Some(l[0].clone()),
            Obj::Group(l) if l.len() > 1 => Some(Obj::Group(l[1..].to_vec())),
            _ => None,
        };
        if let Some(o) = simple {
            let mut os = s.objs.clone();
            os[i] = o;
            v.push(SceneSpec { objs: os, ..s.clone() });
        }
    }
    v
}

/// The same scene with one number in it changed.
pub fn nudge(r: &mut Rng, s: &SceneSpec) -> SceneSpec {
    use serde_json::Value;
    fn leaves(v: &Value, at: &str, out: &mut Vec<String>) {
        match v {
            Value::Number(n) if n.is_f64() || at.contains("/px/") => out.push(at.to_string()),
            Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| leaves(v, &format!("{at}/{i}"), out)),
            Value::Object(m) => m.iter().for_each(|(k, v)| leaves(v, &format!("{at}/{k}"), out)),
            _ => {}
        }
    }
    let mut v = serde_json::to_value(s).unwrap();
    for _ in 0..20 {
        let part = *r.pick(&["/objs", "/objs", "/cam", "/cam", "/bg", "/posts"]);
        let mut l = vec![];
        leaves(v.pointer(part).unwrap(), part, &mut l);
        if l.is_empty() {
            continue;
        }
        let x = v.pointer_mut(r.pick(&l)).unwrap();
        *x = match x.as_f64() {
            Some(f) if x.is_f64() && f != 0.0 => Value::from(f * *r.pick(&[0.5, 0.8, 0.97])),
            Some(_) if x.is_f64() => Value::from(0.1),
            _ => Value::from(x.as_u64().unwrap() ^ 0x40),
        };
        return serde_json::from_value(v).unwrap();
    }
    s.clone()
}
