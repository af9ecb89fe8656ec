//! Model files on disk: what is written, and what loading it should give.
use crate::model::{self, of, p, Draw, Leaf, Ray, Shape, P};
use crate::prng::Rng;
use crate::scenes::place;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use solstrale::hittable::{Hittable, Hittables, Sphere};
use solstrale::loader::obj::Obj as ObjFile;
use solstrale::loader::Loader;
use solstrale::material::{DiffuseLight, Material, RayScatter};
use solstrale::util::interval::Interval;
use std::path::{Path, PathBuf};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Png,
    PngGray,
    PngRgba,
    Bmp,
    Jpg,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Picture {
    pub file: String,
    pub kind: Kind,
    pub img: ImgSpec,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MtlMat {
    pub name: String,
    pub kd: Option<[f32; 3]>,
    pub tex: Option<usize>,
    /// A picture and the keyword it is given with.
    pub bump: Option<(usize, u8)>,
    pub noise: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Lib {
    pub file: String,
    pub mats: Vec<MtlMat>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Line {
    V([f32; 3]),
    Vt([f32; 2]),
    Vn([f32; 3]),
    /// (position, texture coordinate or 0, normal or 0), counted from 1
    Face(Vec<[u32; 3]>),
    Part(String),
    Use(String),
    Lib(usize),
    Noise(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Model {
    pub pictures: Vec<Picture>,
    pub libs: Vec<Lib>,
    pub lines: Vec<Line>,
    pub crlf: bool,
    pub gap: String,
    pub relative: bool,
    pub exp: bool,
    pub last_newline: bool,
}

pub const MAIN: &str = "model.obj";

impl Model {
    fn num(&self, f: f32) -> String {
        if self.exp {
            format!("{f:e}")
        } else {
            format!("{f}")
        }
    }

    fn end(&self, lines: Vec<String>) -> Vec<u8> {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut s = lines.join(nl);
        if self.last_newline {
            s.push_str(nl);
        }
        s.into_bytes()
    }

    pub fn obj_text(&self) -> Vec<u8> {
        let g = &self.gap;
        let (mut nv, mut nt, mut nn) = (0i64, 0i64, 0i64);
        let mut out = vec![];
        for l in &self.lines {
            out.push(match l {
                Line::V(a) => {
                    nv += 1;
                    format!("v{g}{}{g}{}{g}{}", self.num(a[0]), self.num(a[1]), self.num(a[2]))
                }
                Line::Vt(a) => {
                    nt += 1;
                    format!("vt{g}{}{g}{}", self.num(a[0]), self.num(a[1]))
                }
                Line::Vn(a) => {
                    nn += 1;
                    format!("vn{g}{}{g}{}{g}{}", self.num(a[0]), self.num(a[1]), self.num(a[2]))
                }
                Line::Face(f) => {
                    let idx = |i: u32, n: i64| if self.relative { i as i64 - n - 1 } else { i as i64 };
                    let mut s = "f".to_string();
                    for v in f {
                        s.push_str(g);
                        s.push_str(&idx(v[0], nv).to_string());
                        match (v[1], v[2]) {
                            (0, 0) => {}
                            (t, 0) => s.push_str(&format!("/{}", idx(t, nt))),
                            (0, n) => s.push_str(&format!("//{}", idx(n, nn))),
                            (t, n) => s.push_str(&format!("/{}/{}", idx(t, nt), idx(n, nn))),
                        }
                    }
                    s
                }
                Line::Part(n) => n.clone(),
                Line::Use(n) => format!("usemtl {n}"),
                Line::Lib(i) => format!("mtllib {}", self.libs[*i].file),
                Line::Noise(n) => n.clone(),
            });
        }
        self.end(out)
    }

    pub fn mtl_text(&self, i: usize) -> Vec<u8> {
        let g = &self.gap;
        let mut out = vec![];
        for m in &self.libs[i].mats {
            out.push(format!("newmtl {}", m.name));
            if m.noise & 1 != 0 {
                out.push("# a comment".into());
                out.push("Ka 0.1 0.2 0.3".into());
            }
            if m.noise & 2 != 0 {
                out.push("Ns 96.078431".into());
                out.push("illum 2".into());
                out.push(String::new());
            }
            if let Some(c) = m.kd {
                out.push(format!("Kd{g}{}{g}{}{g}{}", self.num(c[0]), self.num(c[1]), self.num(c[2])));
            }
            if m.noise & 4 != 0 {
                out.push("Ks 0.9 0.8 0.7".into());
                out.push("Ke 0 0 0".into());
                out.push("map_Ks unused.png".into());
            }
            if let Some(t) = m.tex {
                out.push(format!("map_Kd {}", self.pictures[t].file));
            }
            if m.noise & 8 != 0 {
                out.push("d 1.0".into());
                out.push("Ni 1.45".into());
                out.push("Pr 0.5".into());
            }
            if let Some((t, k)) = m.bump {
                out.push(format!("{} {}", ["map_Bump", "map_bump", "bump"][k as usize % 3], self.pictures[t].file));
            }
        }
        self.end(out)
    }

    pub fn picture_bytes(&self, i: usize) -> Vec<u8> {
        use image::ImageFormat;
        let pic = &self.pictures[i];
        let img = image::DynamicImage::ImageRgb8(pic.img.real());
        let mut out = std::io::Cursor::new(vec![]);
        let (img, f) = match pic.kind {
            Kind::Png => (img, ImageFormat::Png),
            Kind::PngGray => (image::DynamicImage::ImageLuma8(img.to_luma8()), ImageFormat::Png),
            Kind::PngRgba => (image::DynamicImage::ImageRgba8(img.to_rgba8()), ImageFormat::Png),
            Kind::Bmp => (img, ImageFormat::Bmp),
            Kind::Jpg => (img, ImageFormat::Jpeg),
        };
        img.write_to(&mut out, f).expect("encoding a picture");
        out.into_inner()
    }

    /// The pixels a picture file really has.
    pub fn pixels(&self, i: usize) -> ImgSpec {
        let pic = &self.pictures[i];
        match pic.kind {
            Kind::Jpg => {
                let d = image::load_from_memory(&self.picture_bytes(i)).expect("decoding a picture").to_rgb8();
                ImgSpec { w: d.width(), h: d.height(), px: d.pixels().map(|p| p.0).collect() }
            }
            _ => pic.img.clone(),
        }
    }

    /// Names of all files, the model first.
    pub fn files(&self) -> Vec<String> {
        let mut v = vec![MAIN.to_string()];
        v.extend(self.libs.iter().map(|l| l.file.clone()));
        v.extend(self.pictures.iter().map(|p| p.file.clone()));
        v
    }

    pub fn bytes(&self, file: &str) -> Vec<u8> {
        if let Some(i) = self.libs.iter().position(|l| l.file == file) {
            return self.mtl_text(i);
        }
        if let Some(i) = self.pictures.iter().position(|p| p.file == file) {
            return self.picture_bytes(i);
        }
        self.obj_text()
    }

    pub fn write(&self, dir: &Path) {
        for f in self.files() {
            let at = dir.join(&f);
            std::fs::create_dir_all(at.parent().unwrap()).expect("making a directory of a model");
            std::fs::write(at, self.bytes(&f)).expect("writing a model file");
        }
    }

    /// Does a load need this file?
    pub fn needs(&self, file: &str) -> bool {
        if file == MAIN {
            return true;
        }
        let used: Vec<usize> = self.lines.iter().filter_map(|l| if let Line::Lib(i) = l { Some(*i) } else { None }).collect();
        if let Some(i) = self.libs.iter().position(|l| l.file == file) {
            return used.contains(&i);
        }
        let k = self.pictures.iter().position(|p| p.file == file);
        used.iter().any(|i| self.libs[*i].mats.iter().any(|m| m.tex == k || m.bump.map(|b| b.0) == k))
    }
}

/// Triangles a model should have. `vague` ones have no texture coordinates
/// of their own, so nothing is said about what a texture shows on them.
pub struct Want {
    pub objs: Vec<Obj>,
    pub vague: Vec<bool>,
    /// Material from the file, not the default one.
    pub own: Vec<bool>,
    /// Normals come from converted heights.
    pub rough: Vec<bool>,
}

/// Heights to normals: Sobel slopes with repeated edges, against an upright part of 1/6.
fn heights(i: &ImgSpec) -> ImgSpec {
    let g = |x: i64, y: i64| {
        let x = x.clamp(0, i.w as i64 - 1);
        let y = y.clamp(0, i.h as i64 - 1);
        i.px[(y * i.w as i64 + x) as usize][0] as f64 / 255.0
    };
    let mut px = vec![];
    for y in 0..i.h as i64 {
        for x in 0..i.w as i64 {
            let sx = g(x + 1, y - 1) + 2.0 * g(x + 1, y) + g(x + 1, y + 1) - g(x - 1, y - 1) - 2.0 * g(x - 1, y) - g(x - 1, y + 1);
            let sy = g(x - 1, y - 1) + 2.0 * g(x, y - 1) + g(x + 1, y - 1) - g(x - 1, y + 1) - 2.0 * g(x, y + 1) - g(x + 1, y + 1);
            let n = P::new(-sx, -sy, 1.0 / 6.0).unit();
            let b = |v: f64| ((v * 0.5 + 0.5) * 255.0) as u8;
            px.push([b(n.x), b(n.y), b(n.z)]);
        }
    }
    ImgSpec { w: i.w, h: i.h, px }
}

fn is_gray(i: &ImgSpec) -> bool {
    i.px.iter().all(|p| p[0] == p[1] && p[1] == p[2])
}

pub fn want(m: &Model, default: &Option<Mat>, xf: &[Xf]) -> Want {
    let default = default.clone().unwrap_or(Mat::Lambert { tex: Tex::Solid([1.0; 3]), bump: None });
    let mut w = Want { objs: vec![], vague: vec![], own: vec![], rough: vec![] };
    let (mut v, mut t): (Vec<[f32; 3]>, Vec<[f32; 2]>) = (vec![], vec![]);
    let mut known: Vec<(String, Mat, bool)> = vec![];
    let mut cur: Option<(Mat, bool)> = None;
    for l in &m.lines {
        match l {
            Line::V(a) => v.push(*a),
            Line::Vt(a) => t.push(*a),
            Line::Lib(i) => {
                for mm in &m.libs[*i].mats {
                    let tex = match mm.tex {
                        Some(k) => Tex::Image(m.pixels(k)),
                        None => Tex::Solid(mm.kd.map_or([1.0; 3], |c| c.map(|x| x as f64))),
                    };
                    let mut rough = false;
                    let bump = mm.bump.map(|(k, _)| {
                        let px = m.pixels(k);
                        rough = is_gray(&px);
                        Tex::Image(if rough { heights(&px) } else { px })
                    });
                    known.push((mm.name.clone(), Mat::Lambert { tex, bump }, rough));
                }
            }
            // the latest of that name
            Line::Use(n) => cur = known.iter().rev().find(|k| k.0 == *n).map(|k| (k.1.clone(), k.2)),
            Line::Face(f) => {
                for i in 2..f.len() {
                    let tri = [f[0], f[i - 1], f[i]];
                    let uv = if tri.iter().all(|x| x[1] > 0) { Some(tri.map(|x| t[x[1] as usize - 1])) } else { None };
                    w.vague.push(uv.is_none());
                    w.own.push(cur.is_some());
                    w.rough.push(cur.as_ref().is_some_and(|c| c.1));
                    w.objs.push(Obj::Tri { p: tri.map(|x| v[x[0] as usize - 1].map(|c| c as f64)), uv, mat: cur.as_ref().map_or(default.clone(), |c| c.0.clone()), xf: xf.to_vec() });
                }
            }
            _ => {}
        }
    }
    w
}

fn uses_picture(m: &Mat) -> bool {
    let img = |t: &Tex| matches!(t, Tex::Image(_));
    match m {
        Mat::Lambert { tex, bump } | Mat::Metal { tex, bump, .. } | Mat::Glass { tex, bump, .. } => img(tex) || bump.is_some(),
        Mat::Blend { a, b, .. } => uses_picture(a) || uses_picture(b),
        Mat::Light { .. } => false,
    }
}

fn has_bump(m: &Mat) -> bool {
    match m {
        Mat::Lambert { bump, .. } | Mat::Metal { bump, .. } | Mat::Glass { bump, .. } => bump.is_some(),
        Mat::Blend { a, b, .. } => has_bump(a) || has_bump(b),
        Mat::Light { .. } => false,
    }
}

/// Does the loaded model show what it should along random rays? Every
/// triangle is aimed at `each` times.
pub fn judge(w: &Want, world: &Hittables, each: u32, seed: u64, out: &mut dyn FnMut(&str)) -> Result<(), (String, String)> {
    let leaves = model::flatten(&w.objs);
    crate::props::c09::judge_world(&leaves, world)?;
    let mut r = Rng::new(seed);
    let each = each.min(1500 / leaves.len().max(1) as u32).max(1);
    for (i, l) in leaves.iter().enumerate() {
        let Shape::Tri { p: t, .. } = &l.shape else { continue };
        for _ in 0..each {
            let (a, b) = (r.f(), r.f());
            let (a, b) = if a + b > 1.0 { (1.0 - a, 1.0 - b) } else { (a, b) };
            let target = t[0] + (t[1] - t[0]) * a + (t[2] - t[0]) * b;
            let d = p(place(&mut r, [0.0; 3], 1.0)).unit();
            let ray = Ray { o: target - d * r.log(0.05, 30.0), d: d * r.log(0.2, 5.0) };
            out(match one(w, &leaves, &ray, world).map_err(|(c, d)| (c, format!("aimed at triangle {i}: {d}")))? {
                None => "rays_not_judged",
                Some(true) => "hits",
                Some(false) => "misses",
            });
        }
    }
    Ok(())
}

fn one(w: &Want, leaves: &[Leaf], r: &Ray, world: &Hittables) -> Result<Option<bool>, (String, String)> {
    let mut amb = false;
    let near = model::nearest(leaves, r, 0.001, f64::INFINITY, &mut Draw::Const(0.5), &mut amb);
    if amb || near.as_ref().is_some_and(|n| !n.ties.is_empty()) {
        return Ok(None);
    }
    let real = solstrale::geo::Ray::new(r.o.v(), r.d.v());
    let got = world.hit(&real, &Interval::new(0.001, f64::INFINITY));
    let what = format!("ray from {:?} along {:?}", r.o.arr(), r.d.arr());
    let (n, g) = match (near, got) {
        (None, None) => return Ok(Some(false)),
        (None, Some(g)) => return Err(("false-hit".into(), format!("{what}: hit at {} where nothing should be", g.ray_length))),
        (Some(n), None) => return Err(("missed".into(), format!("{what}: nothing found, triangle {} should be at {}", n.leaf, n.cut.t))),
        (Some(n), Some(g)) => (n, g),
    };
    let (k, cut) = (n.leaf, n.cut);
    if (g.ray_length - cut.t).abs() > 1e-7 * (1.0 + cut.t.abs()) {
        return Err(("wrong-hit".into(), format!("{what}: hit at {}, nearest is triangle {k} at {}", g.ray_length, cut.t)));
    }
    let m = leaves[k].mat.unwrap();
    let cos = r.d.dot(cut.n) / r.d.len();
    if cos.abs() < 1e-6 {
        return Ok(None);
    }
    if g.front_face != (cos < 0.0) {
        return Err(("side".into(), format!("{what}: triangle {k} hit with front_face {}", g.front_face)));
    }
    if !w.own[k] {
        // the default material, as it was handed in
        let name = format!("{:?}", m.real());
        if format!("{:?}", g.material) != name {
            return Err(("material".into(), format!("{what}: triangle {k} has material {:?}, should be {name}", g.material)));
        }
    }
    if w.vague[k] && uses_picture(m) {
        return Ok(Some(true));
    }
    let mut amb = false;
    let facing = if cos < 0.0 { cut.n } else { -cut.n };
    if !has_bump(m) || w.own[k] {
        let want = model::shading_normal(m, &cut, facing, &mut Draw::Const(0.5), &mut amb);
        let tol = if w.rough[k] { 0.02 } else { 1e-5 };
        if !amb && (of(g.normal) - want).max_abs() > tol {
            return Err(("normal".into(), format!("{what}: normal {:?} on triangle {k}, should be {:?}", of(g.normal).arr(), want.arr())));
        }
    }
    if w.own[k] {
        let Mat::Lambert { tex, .. } = m else { unreachable!() };
        let want = model::texel(tex, cut.uv, &mut amb);
        if amb {
            return Ok(None);
        }
        let light = [Sphere::new(solstrale::geo::vec3::Vec3::new(0.0, 50.0, 0.0), 3.0, DiffuseLight::new(1.0, 1.0, 1.0, None))];
        match g.material.scatter(&real, &g, &light) {
            RayScatter::ScatterPdf(s) => {
                if (of(s.color) - want).max_abs() > 1e-6 {
                    return Err(("colour".into(), format!("{what}: colour {:?} on triangle {k}, should be {:?}", of(s.color).arr(), want.arr())));
                }
            }
            _ => return Err(("material".into(), format!("{what}: triangle {k} is not matte: {:?}", g.material))),
        }
    }
    Ok(Some(true))
}

/// A fresh directory for one run.
pub fn dir() -> PathBuf {
    let d = crate::scratch_dir().join(format!("run{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

pub fn load(dir: &Path, default: &Option<Mat>, xf: &[Xf]) -> Result<Hittables, String> {
    let d = format!("{}/", dir.display());
    ObjFile::new(&d, MAIN).load(xf_real(xf).as_ref(), default.as_ref().map(|m| m.real())).map_err(|e| e.to_string().replace(&d, ""))
}

// ------------------------------------------------------------- generation

fn picture(r: &mut Rng, i: usize, bump: bool) -> Picture {
    let (w, h) = match r.below(60) {
        0 => (r.log(6.0, 600.0) as u32, r.int(1, 3) as u32),
        1 => (r.int(1, 3) as u32, r.log(6.0, 600.0) as u32),
        _ => (r.int(1, 6) as u32, r.int(1, 6) as u32),
    };
    let n = (w * h) as usize;
    let px: Vec<[u8; 3]> = if !bump {
        (0..n).map(|_| [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8]).collect()
    } else if r.chance(0.5) {
        (0..n).map(|_| [r.int(90, 165) as u8, r.int(90, 165) as u8, r.int(205, 255) as u8]).collect()
    } else {
        // heights away from the gray that could pass for a normal
        (0..n)
            .map(|_| {
                let g = *r.pick(&[0, 10, 40, 70, 100, 120, 180, 220, 255]);
                [g; 3]
            })
            .collect()
    };
    let mut kind = *r.pick(&[Kind::Png, Kind::Png, Kind::PngRgba, Kind::Bmp, Kind::Jpg]);
    if bump && kind == Kind::Jpg {
        kind = Kind::Png;
    }
    let img = ImgSpec { w, h, px };
    if is_gray(&img) && kind == Kind::Png && r.chance(0.5) {
        kind = Kind::PngGray;
    }
    let ext = match kind {
        _ if r.chance(0.1) => "tga",
        Kind::Bmp => "bmp",
        Kind::Jpg => "jpg",
        _ => "png",
    };
    let name = match r.below(20) {
        0..=3 => format!("pic {i}.{ext}"),
        4 | 5 => format!("tex/pic{i}.{ext}"),
        6 => format!("more textures/a.b/pic{i}.{ext}"),
        7 => format!("pic{i}.old.{ext}"),
        _ => format!("pic{i}.{ext}"),
    };
    Picture { file: name, kind, img }
}

fn lib(r: &mut Rng, i: usize, n: usize, pics: &mut Vec<Picture>, plain: bool) -> Lib {
    let mut mats: Vec<MtlMat> = vec![];
    for k in 0..n {
        let tex = if !plain && r.chance(0.4) {
            pics.push(picture(r, pics.len(), false));
            Some(if r.chance(0.3) && pics.iter().any(|p| p.kind != Kind::PngGray) { r.below(pics.len() as u64) as usize } else { pics.len() - 1 })
        } else {
            None
        };
        let bump = if !plain && r.chance(0.3) {
            pics.push(picture(r, pics.len(), true));
            Some((pics.len() - 1, r.below(3) as u8))
        } else {
            None
        };
        mats.push(MtlMat {
            // names may come again, in the same library or another one
            name: if r.chance(0.08) { "mat 0-0".into() } else if r.chance(0.2) { format!("mat {i}-{k}") } else { format!("m{i}_{k}") },
            kd: if r.chance(0.85) { Some([r.f() as f32, r.f() as f32, r.f() as f32]) } else { None },
            tex,
            bump,
            noise: r.below(16) as u32,
        });
    }
    Lib { file: if r.chance(0.2) { format!("lib {i}.mtl") } else { format!("lib{i}.mtl") }, mats }
}

/// Which stretch of work `gen` may produce.
pub fn gen(r: &mut Rng) -> Model {
    let mut pics = vec![];
    let many = r.chance(0.04);
    let nlib = if many { r.int(1, 2) } else { *r.pick(&[0, 1, 1, 1, 2, 2, 3]) } as usize;
    let libs: Vec<Lib> = (0..nlib)
        .map(|i| {
            let n = if many { r.int(100, 600) } else { r.int(0, 6) } as usize;
            lib(r, i, n, &mut pics, many)
        })
        .collect();
    let mut lines: Vec<Line> = vec![];
    let noise = |r: &mut Rng, lines: &mut Vec<Line>| {
        if r.chance(0.15) {
            let t = *r.pick(&["# a comment", "", "   ", "s off", "s 1", "#another", "cstype bezier"]);
            lines.push(Line::Noise(t.into()));
        }
    };
    let late = r.chance(0.3);
    if !late {
        for i in 0..nlib {
            lines.push(Line::Lib(i));
        }
    }
    let (mut v, mut t, mut n): (Vec<[f32; 3]>, Vec<[f32; 2]>, u32) = (vec![], vec![], 0);
    let parts = r.int(0, if many { 12 } else { 6 }).max(if r.chance(0.97) { 1 } else { 0 });
    let mut lib_at = 0;
    for k in 0..parts {
        if late && lib_at < nlib && r.chance(0.7) {
            lines.push(Line::Lib(lib_at));
            lib_at += 1;
        }
        if r.chance(0.5) {
            lines.push(Line::Part(format!("{} part{k}", r.pick(&["o", "g"]))));
        }
        if r.chance(0.75) {
            let name = match libs.iter().filter(|l| !l.mats.is_empty()).count() {
                0 => "unknown".to_string(),
                _ if r.chance(0.06) => "unknown".to_string(),
                c => {
                    let l = libs.iter().filter(|l| !l.mats.is_empty()).nth(r.below(c as u64) as usize).unwrap();
                    l.mats[r.below(l.mats.len() as u64) as usize].name.clone()
                }
            };
            lines.push(Line::Use(name));
        }
        let c = place(r, [0.0; 3], 4.0);
        let faces = if r.chance(0.004) { r.log(50.0, 400.0) as i64 } else { r.int(0, 4).max(1) };
        for _ in 0..faces {
            noise(r, &mut lines);
            face(r, c, &mut lines, &mut v, &mut t, &mut n);
        }
    }
    if late {
        // libraries nobody uses
        while lib_at < nlib {
            lines.push(Line::Lib(lib_at));
            lib_at += 1;
        }
    }
    Model {
        pictures: pics,
        libs,
        lines,
        crlf: r.chance(0.2),
        gap: r.pick(&[" ", " ", "  ", "\t"]).to_string(),
        relative: r.chance(0.25),
        exp: r.chance(0.15),
        last_newline: r.chance(0.8),
    }
}

fn area2(a: [f32; 3], b: [f32; 3], c: [f32; 3]) -> f64 {
    let q = |x: [f32; 3]| p(x.map(|c| c as f64));
    (q(b) - q(a)).cross(q(c) - q(a)).len()
}

fn face(r: &mut Rng, c: V, lines: &mut Vec<Line>, v: &mut Vec<[f32; 3]>, t: &mut Vec<[f32; 2]>, n: &mut u32) {
    // corners: new ones around a flat regular shape, or three known ones
    let mut idx: Vec<u32> = vec![];
    if v.len() >= 6 && r.chance(0.25) {
        for _ in 0..20 {
            let k: Vec<u32> = (0..3).map(|_| r.below(v.len() as u64) as u32).collect();
            if area2(v[k[0] as usize], v[k[1] as usize], v[k[2] as usize]) > 0.05 {
                idx = k.iter().map(|i| i + 1).collect();
                break;
            }
        }
    }
    if idx.is_empty() {
        let sides = *r.pick(&[3, 3, 3, 4, 4, 5, 6, 7]) as usize;
        let at = place(r, c, 2.0);
        let a = p(place(r, [0.0; 3], 1.0)).unit();
        let b = loop {
            let b = p(place(r, [0.0; 3], 1.0)).cross(a);
            if b.len() > 0.1 {
                break b.unit();
            }
        };
        let (s, ph) = (r.log(0.2, 2.5), r.range(0.0, 6.28));
        for k in 0..sides {
            let w = ph + (k as f64 + r.range(-0.25, 0.25)) * 6.283185307 / sides as f64;
            let q = p(at) + a * (s * w.cos()) + b * (s * w.sin());
            v.push(q.arr().map(|x| x as f32));
            lines.push(Line::V(*v.last().unwrap()));
            idx.push(v.len() as u32);
        }
    }
    let uv = r.chance(0.75);
    let nrm = r.chance(0.3);
    if nrm {
        lines.push(Line::Vn([0.0, 1.0, 0.0]));
        *n += 1;
    }
    // texture coordinates: an image of a regular shape too, so no triangle of it is flat
    let m = idx.len();
    let (tc, ts, tp) = ([r.range(-1.0, 1.5), r.range(-1.0, 1.5)], r.log(0.2, 1.5), r.range(0.0, 6.28));
    let back = if r.chance(0.3) { -1.0 } else { 1.0 };
    let mut f = vec![];
    for (k, i) in idx.iter().enumerate() {
        let ti = if uv {
            let w = tp + back * k as f64 * 6.283185307 / m as f64;
            let q = [(tc[0] + ts * w.cos()) as f32, (tc[1] + ts * w.sin()) as f32];
            t.push(q);
            lines.push(Line::Vt(q));
            t.len() as u32
        } else {
            0
        };
        f.push([*i, ti, if nrm { *n } else { 0 }]);
    }
    lines.push(Line::Face(f));
}

/// Simpler models.
pub fn shrink(m: &Model) -> Vec<Model> {
    let mut v = vec![];
    // drop stretches of lines that others do not count on
    let loose: Vec<usize> = (0..m.lines.len()).filter(|i| matches!(m.lines[*i], Line::Face(_) | Line::Part(_) | Line::Use(_) | Line::Noise(_) | Line::Lib(_))).collect();
    let mut k = loose.len();
    while k >= 1 {
        for s in (0..loose.len()).step_by(k) {
            let drop: Vec<usize> = loose[s..(s + k).min(loose.len())].to_vec();
            let mut q = m.clone();
            q.lines = m.lines.iter().enumerate().filter(|(i, _)| !drop.contains(i)).map(|(_, l)| l.clone()).collect();
            v.push(q);
        }
        k /= 2;
    }
    for (i, l) in m.libs.iter().enumerate() {
        let c = l.mats.len();
        let mut k = c;
        while k >= 1 {
            for s in (0..c).step_by(k) {
                let mut q = m.clone();
                q.libs[i].mats.drain(s..(s + k).min(c));
                v.push(q);
            }
            k /= 2;
        }
        for (j, mm) in l.mats.iter().enumerate().take(20) {
            for f in 0..3 {
                let mut q = m.clone();
                let z = &mut q.libs[i].mats[j];
                match f {
                    0 if mm.tex.is_some() => z.tex = None,
                    1 if mm.bump.is_some() => z.bump = None,
                    2 if mm.noise != 0 => z.noise = 0,
                    _ => continue,
                }
                v.push(q);
            }
        }
    }
    for (a, f) in [(m.crlf, 0), (m.relative, 1), (m.exp, 2), (!m.last_newline, 3), (m.gap != " ", 4)] {
        if a {
            let mut q = m.clone();
            match f {
                0 => q.crlf = false,
                1 => q.relative = false,
                2 => q.exp = false,
                3 => q.last_newline = true,
                _ => q.gap = " ".into(),
            }
            v.push(q);
        }
    }
    v
}
