//! Serializable descriptions of scenes, and the real objects built from them.
use serde::{Deserialize, Serialize};
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::{NopTransformer, RotationX, RotationY, RotationZ, Scale, Transformations, Transformer, Translation};
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Uv;
use solstrale::hittable::{Bvh, ConstantMedium, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::{ImageMap, SolidColor, Textures};
use solstrale::material::{Blend, Dielectric, DiffuseLight, Lambertian, Materials, Metal};
use solstrale::post::{BloomPostProcessor, NopPostProcessor, OidnPostProcessor, PostProcessors};
use solstrale::renderer::shader::{AlbedoShader, NormalShader, PathTracingShader, Shaders, SimpleShader};
use solstrale::renderer::{RenderConfig, RenderImageStrategy, Scene};
use std::sync::Arc;
use std::time::Duration;

pub type V = [f64; 3];

pub fn v3(a: V) -> Vec3 {
    Vec3::new(a[0], a[1], a[2])
}
pub fn arr(a: Vec3) -> V {
    [a.x, a.y, a.z]
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Xf {
    RotX(f64),
    RotY(f64),
    RotZ(f64),
    Scale(f64),
    Move(V),
}

pub fn xf_real(list: &[Xf]) -> Box<dyn Transformer> {
    if list.is_empty() {
        return Box::new(NopTransformer());
    }
    Box::new(Transformations::new(
        list.iter()
            .map(|x| -> Box<dyn Transformer> {
                match *x {
                    Xf::RotX(a) => Box::new(RotationX::new(a)),
                    Xf::RotY(a) => Box::new(RotationY::new(a)),
                    Xf::RotZ(a) => Box::new(RotationZ::new(a)),
                    Xf::Scale(s) => Box::new(Scale::new(s)),
                    Xf::Move(v) => Box::new(Translation::new(v3(v))),
                }
            })
            .collect(),
    ))
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ImgSpec {
    pub w: u32,
    pub h: u32,
    pub px: Vec<[u8; 3]>,
}

impl ImgSpec {
    pub fn real(&self) -> image::RgbImage {
        let mut i = image::RgbImage::new(self.w, self.h);
        for y in 0..self.h {
            for x in 0..self.w {
                i.put_pixel(x, y, image::Rgb(self.px[(y * self.w + x) as usize]));
            }
        }
        i
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Tex {
    Solid(V),
    Image(ImgSpec),
}

impl Tex {
    pub fn real(&self) -> Textures {
        match self {
            Tex::Solid(c) => SolidColor::new(c[0], c[1], c[2]),
            Tex::Image(i) => ImageMap::new(Arc::new(i.real())),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Mat {
    Lambert { tex: Tex, bump: Option<Tex> },
    Metal { tex: Tex, bump: Option<Tex>, fuzz: f64 },
    Glass { tex: Tex, bump: Option<Tex>, ior: f64 },
    Light { rgb: V, half: Option<f64> },
    Blend { a: Box<Mat>, b: Box<Mat>, f: f64 },
}

impl Mat {
    pub fn real(&self) -> Materials {
        match self {
            Mat::Lambert { tex, bump } => Lambertian::new(tex.real(), bump.as_ref().map(|b| b.real())),
            Mat::Metal { tex, bump, fuzz } => Metal::new(tex.real(), bump.as_ref().map(|b| b.real()), *fuzz),
            Mat::Glass { tex, bump, ior } => Dielectric::new(tex.real(), bump.as_ref().map(|b| b.real()), *ior),
            Mat::Light { rgb, half } => DiffuseLight::new(rgb[0], rgb[1], rgb[2], *half),
            Mat::Blend { a, b, f } => Blend::new(a.real(), b.real(), *f),
        }
    }
    pub fn is_light(&self) -> bool {
        matches!(self, Mat::Light { .. })
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Obj {
    Sphere { c: V, r: f64, mat: Mat },
    Quad { q: V, u: V, v: V, mat: Mat, xf: Vec<Xf> },
    Tri { p: [V; 3], uv: Option<[[f32; 2]; 3]>, mat: Mat, xf: Vec<Xf> },
    Box { a: V, b: V, mat: Mat, xf: Vec<Xf> },
    Fog { boundary: std::boxed::Box<Obj>, density: f64, rgb: V },
    Group(Vec<Obj>),
}

impl Obj {
    /// The real hittables (a box is several).
    pub fn real(&self) -> Vec<Hittables> {
        match self {
            Obj::Sphere { c, r, mat } => vec![Sphere::new(v3(*c), *r, mat.real())],
            Obj::Quad { q, u, v, mat, xf } => vec![Quad::new(v3(*q), v3(*u), v3(*v), mat.real(), xf_real(xf).as_ref())],
            Obj::Tri { p, uv, mat, xf } => match uv {
                None => vec![Triangle::new(v3(p[0]), v3(p[1]), v3(p[2]), mat.real(), xf_real(xf).as_ref())],
                Some(t) => vec![Triangle::new_with_tex_coords(
                    v3(p[0]),
                    v3(p[1]),
                    v3(p[2]),
                    Uv::new(t[0][0], t[0][1]),
                    Uv::new(t[1][0], t[1][1]),
                    Uv::new(t[2][0], t[2][1]),
                    mat.real(),
                    xf_real(xf).as_ref(),
                )],
            },
            Obj::Box { a, b, mat, xf } => Quad::new_box(v3(*a), v3(*b), mat.real(), xf_real(xf).as_ref()),
            Obj::Fog { boundary, density, rgb } => {
                let mut b = boundary.real();
                let h = if b.len() == 1 { b.remove(0) } else { Bvh::new(b) };
                vec![ConstantMedium::new(h, *density, v3(*rgb))]
            }
            Obj::Group(list) => vec![Bvh::new(list.iter().flat_map(|o| o.real()).collect())],
        }
    }
    pub fn has_light(&self) -> bool {
        match self {
            Obj::Sphere { mat, .. } | Obj::Quad { mat, .. } | Obj::Tri { mat, .. } | Obj::Box { mat, .. } => mat.is_light(),
            Obj::Fog { .. } => false,
            Obj::Group(l) => l.iter().any(|o| o.has_light()),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Cam {
    pub fov: f64,
    pub aperture: f64,
    pub from: V,
    pub at: V,
    pub up: V,
}

impl Cam {
    pub fn real(&self) -> CameraConfig {
        CameraConfig { vertical_fov_degrees: self.fov, aperture_size: self.aperture, look_from: v3(self.from), look_at: v3(self.at), up: v3(self.up) }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Sh {
    Path(u32),
    Albedo,
    Normal,
    Simple,
}

impl Sh {
    pub fn real(&self) -> Shaders {
        match self {
            Sh::Path(d) => PathTracingShader::new(*d),
            Sh::Albedo => AlbedoShader::new(),
            Sh::Normal => NormalShader::new(),
            Sh::Simple => SimpleShader::new(),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Post {
    Nop,
    Oidn,
    Bloom { frac: f64, threshold: Option<f64>, max: Option<f64> },
}

impl Post {
    pub fn real(&self) -> PostProcessors {
        match self {
            Post::Nop => NopPostProcessor::new(),
            Post::Oidn => OidnPostProcessor::new(),
            Post::Bloom { frac, threshold, max } => BloomPostProcessor::new(*frac, *threshold, *max).expect("bloom parameters"),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Strat {
    Every,
    Interval(u64),
    Final,
}

impl Strat {
    pub fn real(&self) -> RenderImageStrategy {
        match self {
            Strat::Every => RenderImageStrategy::EverySample,
            Strat::Interval(ns) => RenderImageStrategy::Interval(Duration::from_nanos(*ns)),
            Strat::Final => RenderImageStrategy::OnlyFinal,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SceneSpec {
    pub objs: Vec<Obj>,
    pub cam: Cam,
    pub bg: V,
    pub w: usize,
    pub h: usize,
    pub spp: u32,
    pub shader: Sh,
    pub posts: Vec<Post>,
    pub strat: Strat,
}

impl SceneSpec {
    pub fn real(&self) -> Scene {
        let list: Vec<Hittables> = self.objs.iter().flat_map(|o| o.real()).collect();
        self.with_world(Bvh::new(list))
    }
    pub fn with_world(&self, world: Hittables) -> Scene {
        Scene {
            world,
            camera: self.cam.real(),
            background_color: v3(self.bg),
            render_config: RenderConfig {
                width: self.w,
                height: self.h,
                samples_per_pixel: self.spp,
                shader: self.shader.real(),
                post_processors: self.posts.iter().map(|p| p.real()).collect(),
                render_image_strategy: self.strat.real(),
            },
        }
    }
    pub fn has_light(&self) -> bool {
        self.objs.iter().any(|o| o.has_light())
    }
}
