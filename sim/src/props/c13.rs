//! A loaded model has the file's triangles, materials and textures, transformed.
use super::{no_stray_panics, Fin};
use crate::core::{take_panics, RunOut};
use crate::files::{self, Model};
use crate::prng::Rng;
use crate::scenes;
use crate::spec::*;
use crate::swarm;
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct B {
    pub m: Model,
    pub default: Option<Mat>,
    pub xf: Vec<Xf>,
    pub each: u32,
    pub loaders: u32,
    pub ray_seed: u64,
    /// Models loaded afterwards by the same process: from the same directory, which they
    /// replace the files of, or from another one that has files of the same names.
    #[serde(default)]
    pub more: Vec<(Model, bool)>,
}

pub const RULE: &str = "Random model files (objects, groups, polygons of 3 to 7 corners, shared and relative indices, missing coordinates and normals, several libraries with repeated and unknown material names, up to 1200 materials, pictures of five kinds under right and wrong extensions, normal and height maps, odd spacing, line ends, exponents and comments), any default material and transformation, are written to a scratch directory and loaded by one to three threads under short and interrupted reads and preempting schedules; then other models may replace these files or be loaded from another directory under the same names by the same process. Every triangle is aimed at several times; distance, side, material, colour and bent normal are compared with an independent reading of the model; the count of lights and the bounding box as well.";
pub const STUBS: &[&str] = &["file reads (real, cut short and interrupted by the simulator)"];
pub const QUICK_RUNS: u64 = 30000;

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = RngMode::Uniform;
    let m = files::gen(r);
    if r.chance(0.6) {
        sim.short_read = *r.pick(&[1, 3, 17, 100, 1000]);
    }
    if r.chance(0.3) {
        let f = m.files();
        for _ in 0..r.int(1, 4) {
            sim.io.push(simrt::IoFault { file: r.pick(&f).clone(), op: if r.chance(0.2) { simrt::IoOp::Open } else { simrt::IoOp::Read }, nth: r.int(1, 6) as u32, count: r.int(1, 3) as u32, errno: libc::EINTR });
        }
    }
    sim.max_edges = 400_000_000;
    let default = match r.below(3) {
        0 => None,
        1 => Some(scenes::light(r)),
        _ => Some(scenes::mat(r, 1)),
    };
    let mut xf = scenes::xfs(r);
    let mut m = m;
    let mut more: Vec<(Model, bool)> = if r.chance(0.2) { (0..r.int(1, 2)).map(|_| (files::gen(r), r.chance(0.5))).collect() } else { vec![] };
    if r.chance(0.1) {
        // in units so small or large that only the transformation makes it a sensible size
        let s = 10f64.powf(r.range(-7.0, 6.0));
        for l in m.lines.iter_mut().chain(more.iter_mut().flat_map(|m| m.0.lines.iter_mut())) {
            if let files::Line::V(v) = l {
                *v = v.map(|x| (x as f64 * s) as f32);
            }
        }
        xf.insert(0, Xf::Scale(1.0 / s));
    }
    let b = B { m, default, xf, each: r.int(2, 8) as u32, loaders: *r.pick(&[1, 1, 1, 2, 3]), ray_seed: r.u64(), more };
    (sim, swarm::threads(r), b)
}

pub fn exec(b: &B, mut sim: SimCfg, out: &mut RunOut, fin: Fin) {
    let dir = files::dir();
    let short = sim.short_read;
    b.m.write(&dir);
    sim.io_prefix = dir.display().to_string();
    let b2 = Arc::new(b.clone());
    let all: Vec<(&Model, Arc<PathBuf>)> = std::iter::once((&b.m, true))
        .chain(b.more.iter().map(|(m, same)| (m, *same)))
        .map(|(m, same)| (m, Arc::new(if same { dir.clone() } else { dir.join("other") })))
        .collect();
    // pictures are decoded by the simulator's own code before the run starts
    let wants: Vec<files::Want> = all.iter().map(|(m, _)| files::want(m, &b.default, &b.xf)).collect();
    let _ = std::fs::create_dir(dir.join("other"));
    simrt::start(sim, fin);
    for (i, (m, at)) in all.iter().enumerate() {
        if i > 0 {
            simrt::set_io(vec![], short);
            m.write(at);
        }
        let mut hs = vec![];
        for _ in 0..b.loaders {
            let (b, at) = (b2.clone(), at.clone());
            hs.push(simrt::exempt(|| std::thread::spawn(move || files::load(&at, &b.default, &b.xf))));
        }
        for (k, h) in hs.into_iter().enumerate() {
            match h.join() {
                Err(_) => out.fail("panic", format!("model {i}: loading panicked: {}", take_panics().join(" | "))),
                Ok(Err(e)) => out.fail("load-error", format!("model {i}: a sound model was refused: {e}")),
                Ok(Ok(world)) => {
                    out.probe("checked", 1);
                    out.probe(if i > 0 { "later_models" } else { "models" }, 1);
                    let r = files::judge(&wants[i], &world, b.each, b.ray_seed ^ k as u64, &mut |k| out.probe(k, 1));
                    if let Err((c, d)) = r {
                        out.fail(&c, format!("model {i}: {d}"));
                    }
                }
            }
        }
    }
    no_stray_panics(out);
    let n = simrt::report().open_fds;
    if n > 0 {
        out.fail("open-files", format!("{n} files left open"));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn shrink(b: &B) -> Vec<B> {
    let mut v: Vec<B> = vec![];
    if b.loaders > 1 {
        v.push(B { loaders: 1, ..b.clone() });
    }
    for i in 0..b.more.len() {
        let mut more = b.more.clone();
        let (m, _) = more.remove(i);
        v.push(B { more: more.clone(), ..b.clone() });
        v.push(B { m: m.clone(), more, ..b.clone() });
        for s in files::shrink(&m) {
            let mut more = b.more.clone();
            more[i].0 = s;
            v.push(B { more, ..b.clone() });
        }
    }
    v.extend(files::shrink(&b.m).into_iter().map(|m| B { m, ..b.clone() }));
    if !b.xf.is_empty() {
        v.push(B { xf: vec![], ..b.clone() });
        for i in 0..b.xf.len() {
            let mut x = b.xf.clone();
            x.remove(i);
            v.push(B { xf: x, ..b.clone() });
        }
    }
    if b.default.is_some() {
        v.push(B { default: None, ..b.clone() });
    }
    v
}
