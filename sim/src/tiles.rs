//! A scene whose image can be decoded: one emissive tile per pixel footprint
//! on the focus plane.  Red and blue name the pixel, green tells which half of
//! the footprint a sample fell into.
use crate::prng::Rng;
use crate::render::{Img, Rep};
use crate::spec::*;
use serde::{Deserialize, Serialize};
use solstrale::geo::vec3::Vec3;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tiles {
    pub w: usize,
    pub h: usize,
    pub spp: u32,
    pub cam: Cam,
    /// Halves are left/right (false) or bottom/top (true).
    pub split_v: bool,
    /// Where the first "half" ends, as a fraction of the footprint.
    #[serde(default = "half")]
    pub cut: f64,
    pub shader: Sh,
    pub strat: Strat,
    /// Offset of the pixel codes, so that two renders never look alike.
    pub code0: usize,
}

fn half() -> f64 {
    0.5
}

const LO: f64 = 100.0;
const HI: f64 = 220.0;

fn lvl(n: f64) -> f64 {
    let x = (n + 0.5) / 256.0;
    x * x
}

impl Tiles {
    pub fn gen(r: &mut Rng, max_w: i64, max_h: i64, max_spp: i64) -> Tiles {
        let (w, h, spp) = sizes(r, max_w, max_h, max_spp);
        Tiles {
            w,
            h,
            spp,
            cam: gen_cam(r),
            split_v: r.chance(0.5),
            cut: if r.chance(0.5) { 0.5 } else { r.range(0.03, 0.97) },
            shader: match r.below(6) {
                0 => Sh::Albedo,
                1 => Sh::Simple,
                _ => Sh::Path(r.int(1, 50) as u32),
            },
            strat: Strat::Every,
            code0: 0,
        }
    }
    /// At most so many samples in all.
    pub fn cap(&mut self, max: usize) {
        while self.w * self.h > max {
            if self.w > self.h {
                self.w /= 2;
            } else {
                self.h /= 2;
            }
        }
        self.spp = self.spp.min((max / (self.w * self.h)).max(1) as u32);
    }
    pub fn code(&self, x: usize, y_img: usize) -> (u8, u8) {
        let idx = self.code0 + y_img * self.w + x;
        ((100 + idx % 151) as u8, (100 + idx / 151 % 151) as u8)
    }
    pub fn scene(&self) -> SceneSpec {
        let (llc, horiz, vert) = view_rect(&self.cam, self.w, self.h);
        let w1 = (self.w as f64 - 1.0).max(1.0);
        let h1 = (self.h as f64 - 1.0).max(1.0);
        let mut objs = vec![];
        for y in 0..self.h {
            for x in 0..self.w {
                let (n1, n2) = self.code(x, self.h - 1 - y);
                for half in 0..2 {
                    let g = if half == 0 { LO } else { HI };
                    let (from, part) = if half == 0 { (0.0, self.cut) } else { (self.cut, 1.0 - self.cut) };
                    let (fx, fy, du, dv) = if self.split_v {
                        (x as f64, y as f64 + from, 1.0, part)
                    } else {
                        (x as f64 + from, y as f64, part, 1.0)
                    };
                    objs.push(Obj::Quad {
                        q: arr(llc + horiz * (fx / w1) + vert * (fy / h1)),
                        u: arr(horiz * (du / w1)),
                        v: arr(vert * (dv / h1)),
                        mat: Mat::Light { rgb: [lvl(n1 as f64), lvl(g), lvl(n2 as f64)], half: None },
                        xf: vec![],
                    });
                }
            }
        }
        SceneSpec { objs, cam: self.cam.clone(), bg: [0.0, 0.0, 0.0], w: self.w, h: self.h, spp: self.spp, shader: self.shader.clone(), posts: vec![], strat: self.strat.clone() }
    }

    /// Decodes an image that should hold exactly k samples per pixel.  Returns
    /// how many of the k samples fell in the second half, per pixel.
    pub fn decode(&self, img: &Img, k: u32) -> Result<Vec<(u32, u32)>, String> {
        if img.w as usize != self.w || img.h as usize != self.h {
            return Err(format!("image is {}x{}, asked for {}x{}", img.w, img.h, self.w, self.h));
        }
        let mut ms = Vec::with_capacity(self.w * self.h);
        for y in 0..self.h {
            for x in 0..self.w {
                let p = img.at(x, y);
                let (n1, n2) = self.code(x, y);
                if p[0] != n1 || p[2] != n2 {
                    return Err(format!("pixel ({x},{y}) after {k} samples is {p:?}, its own tile gives red {n1} blue {n2}"));
                }
                // how many of the k samples can have come from the second half
                let (g0, g1) = (lvl(LO), lvl(HI));
                let m_of = |n: f64| ((n / 256.0).powi(2) - g0) / (g1 - g0) * k as f64;
                let lo = (m_of(p[1] as f64 - 0.02) - 1e-6).ceil().max(0.0);
                let hi = (m_of(p[1] as f64 + 1.02) + 1e-6).floor().min(k as f64);
                if lo > hi {
                    return Err(format!("pixel ({x},{y}) green {} is not the mean of {k} samples of its own tile", p[1]));
                }
                ms.push((lo as u32, hi as u32));
            }
        }
        Ok(ms)
    }

    /// Whether the positions of the samples look independent of each other: for
    /// two equal halves, compares those of a pixel in consecutive samples, of
    /// neighbours in a row and of neighbours in a column, row by row.  Returns
    /// the number of comparisons judged.
    pub fn independent(&self, reports: &[Rep]) -> Result<u64, String> {
        if self.cut != 0.5 {
            return Ok(0);
        }
        // which half each sample of each pixel fell into, where that can be told
        let mut bits: Vec<Vec<Option<bool>>> = vec![];
        let mut last: Vec<Option<u32>> = vec![Some(0); self.w * self.h];
        for (i, r) in reports.iter().enumerate() {
            let Some(img) = &r.img else {
                bits.push(vec![None; self.w * self.h]);
                last = vec![None; self.w * self.h];
                continue;
            };
            let now: Vec<Option<u32>> = self.decode(img, i as u32 + 1)?.iter().map(|m| (m.0 == m.1).then_some(m.0)).collect();
            bits.push(now.iter().zip(&last).map(|(a, b)| Some((*a)? > (*b)?)).collect());
            last = now;
        }
        let at = |s: usize, x: usize, y: usize| bits[s][y * self.w + x];
        let mut judged = 0;
        let mut judge = |what: String, pairs: &mut dyn Iterator<Item = (Option<bool>, Option<bool>)>| -> Result<(), String> {
            let (mut n, mut same) = (0u64, 0u64);
            for (a, b) in pairs {
                if let (Some(a), Some(b)) = (a, b) {
                    n += 1;
                    same += (a == b) as u64;
                }
            }
            // Hoeffding, error below 1e-17 for each comparison
            let dev = (n as f64 * 40.0 / 2.0).sqrt();
            if n < 80 {
                return Ok(());
            }
            judged += 1;
            if (same as f64 - n as f64 / 2.0).abs() > dev {
                return Err(format!("{what}: {same} of {n} pairs fell in the same half of their pixels"));
            }
            Ok(())
        };
        let k = bits.len();
        for y in 0..self.h {
            judge(format!("consecutive samples of the same pixels in image row {y}"), &mut (1..k).flat_map(|s| (0..self.w).map(move |x| (s, x))).map(|(s, x)| (at(s - 1, x, y), at(s, x, y))))?;
            judge(format!("neighbouring pixels in image row {y}"), &mut (0..k).flat_map(|s| (1..self.w).map(move |x| (s, x))).map(|(s, x)| (at(s, x - 1, y), at(s, x, y))))?;
            if y > 0 {
                judge(format!("pixels in image rows {} and {y}", y - 1), &mut (0..k).flat_map(|s| (0..self.w).map(move |x| (s, x))).map(|(s, x)| (at(s, x, y - 1), at(s, x, y))))?;
            }
        }
        // all rows together
        judge("consecutive samples of the same pixels".into(), &mut (1..k).flat_map(|s| (0..self.h).flat_map(move |y| (0..self.w).map(move |x| (s, x, y)))).map(|(s, x, y)| (at(s - 1, x, y), at(s, x, y))))?;
        judge("neighbouring rows".into(), &mut (0..k).flat_map(|s| (1..self.h).flat_map(move |y| (0..self.w).map(move |x| (s, x, y)))).map(|(s, x, y)| (at(s, x, y - 1), at(s, x, y))))?;
        Ok(judged)
    }

    /// Checks every image of a report sequence; returns (images checked, second-half samples at least and at most, samples).
    pub fn check(&self, reports: &[Rep]) -> Result<(u64, u64, u64, u64), String> {
        let mut last: Option<(u32, Vec<(u32, u32)>)> = None;
        let mut n = 0;
        for (i, r) in reports.iter().enumerate() {
            let k = i as u32 + 1;
            if let Some(img) = &r.img {
                let ms = self.decode(img, k)?;
                if let Some((k0, m0)) = &last {
                    for (j, (a, b)) in m0.iter().zip(&ms).enumerate() {
                        if b.1 < a.0 || b.0 > a.1 + (k - k0) {
                            return Err(format!("pixel ({},{}): {}-{} of {k0} samples in the second half, then {}-{} of {k}", j % self.w, j / self.w, a.0, a.1, b.0, b.1));
                        }
                    }
                }
                n += 1;
                last = Some((k, ms));
            }
        }
        Ok(match &last {
            Some((k, m)) => (n, m.iter().map(|x| x.0 as u64).sum(), m.iter().map(|x| x.1 as u64).sum(), *k as u64 * m.len() as u64),
            None => (n, 0, 0, 0),
        })
    }

    pub fn shrink(&self) -> Vec<Tiles> {
        let mut v = vec![];
        let mut push = |t: Tiles| v.push(t);
        for w in [1, 2, self.w / 2, self.w.saturating_sub(1)] {
            if w >= 1 && w < self.w {
                push(Tiles { w, ..self.clone() });
            }
        }
        for h in [1, 2, self.h / 2, self.h.saturating_sub(1)] {
            if h >= 1 && h < self.h {
                push(Tiles { h, ..self.clone() });
            }
        }
        for spp in [1, 2, self.spp / 2, self.spp.saturating_sub(1)] {
            if spp >= 1 && spp < self.spp {
                push(Tiles { spp, ..self.clone() });
            }
        }
        if self.cam != simple_cam() {
            push(Tiles { cam: simple_cam(), ..self.clone() });
        }
        if self.cut != 0.5 {
            push(Tiles { cut: 0.5, ..self.clone() });
        }
        if self.shader != Sh::Path(5) {
            push(Tiles { shader: Sh::Path(5), ..self.clone() });
        }
        v
    }
}

/// Width, height and samples per pixel: mostly small, sometimes long, wide or many.
pub fn sizes(r: &mut Rng, max_w: i64, max_h: i64, max_spp: i64) -> (usize, usize, u32) {
    match r.below(28) {
        0 => {
            let w = r.log(1.0, 200.0);
            let h = r.log(1.0, (1200.0 / w).min(200.0));
            let (w, h) = if r.chance(0.5) { (w, h) } else { (h, w) };
            (w as usize, h as usize, r.int(1, max_spp.min(3)) as u32)
        }
        1 => {
            let w = r.int(1, 6);
            (w as usize, r.int(1, 6 / w) as usize, r.log(20.0, 260.0) as u32)
        }
        _ => {
            let w = if r.chance(0.08) { 1 } else { r.int(2, max_w) };
            let h = if r.chance(0.08) { 1 } else { r.int(2, max_h) };
            (w as usize, h as usize, r.int(1, max_spp) as u32)
        }
    }
}

/// Lower left corner, width and height vectors of the view rectangle at the focus distance.
pub fn view_rect(c: &Cam, w: usize, h: usize) -> (Vec3, Vec3, Vec3) {
    let (from, at, up) = (v3(c.from), v3(c.at), v3(c.up));
    let look = from - at;
    let d = look.length();
    let wv = look * (1.0 / d);
    let uv = {
        let x = up.cross(wv);
        x * (1.0 / x.length())
    };
    let vv = wv.cross(uv);
    let hh = (c.fov.to_radians() / 2.0).tan();
    let horiz = uv * (2.0 * hh * w as f64 / h as f64 * d);
    let vert = vv * (2.0 * hh * d);
    (at - horiz * 0.5 - vert * 0.5, horiz, vert)
}

/// One emissive tile per pixel; `color` gives what pixel (x, y) of the image shows.
pub fn flat_tiles(c: &Cam, w: usize, h: usize, color: impl Fn(usize, usize) -> V) -> Vec<Obj> {
    let (llc, horiz, vert) = view_rect(c, w, h);
    let w1 = (w as f64 - 1.0).max(1.0);
    let h1 = (h as f64 - 1.0).max(1.0);
    let mut objs = vec![];
    for y in 0..h {
        for x in 0..w {
            objs.push(Obj::Quad {
                q: arr(llc + horiz * (x as f64 / w1) + vert * (y as f64 / h1)),
                u: arr(horiz * (1.0 / w1)),
                v: arr(vert * (1.0 / h1)),
                mat: Mat::Light { rgb: color(x, h - 1 - y), half: None },
                xf: vec![],
            });
        }
    }
    objs
}

pub fn simple_cam() -> Cam {
    Cam { fov: 50.0, aperture: 0.0, from: [0.0, 0.0, 4.0], at: [0.0, 0.0, 0.0], up: [0.0, 1.0, 0.0] }
}

pub fn gen_cam(r: &mut Rng) -> Cam {
    loop {
        let from = [r.range(-5.0, 5.0), r.range(-5.0, 5.0), r.range(-5.0, 5.0)];
        let d = r.log(0.8, 30.0);
        let (a, b) = (r.range(0.0, std::f64::consts::TAU), r.range(-1.2, 1.2));
        let at = [from[0] + d * b.cos() * a.cos(), from[1] + d * b.sin(), from[2] + d * b.cos() * a.sin()];
        let up = if r.chance(0.5) { [0.0, 1.0, 0.0] } else { [r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0)] };
        let look = v3(from) - v3(at);
        let x = v3(up).cross(look);
        if x.length() < 0.2 * v3(up).length() * look.length() || v3(up).length() < 0.1 {
            continue;
        }
        return Cam { fov: r.range(10.0, 110.0), aperture: if r.chance(0.4) { r.log(0.001, 0.5) * d.min(4.0) } else { 0.0 }, from, at, up };
    }
}
