//! Loading from disk gives the whole model or texture, or an error.
use super::{no_stray_panics, Fin};
use crate::core::{take_panics, RunOut};
use crate::files::{self, Kind, Model, MAIN};
use crate::model::{of, texel};
use crate::prng::Rng;
use crate::scenes;
use crate::spec::*;
use crate::swarm;
use serde::{Deserialize, Serialize};
use simrt::{IoFault, IoOp, RngMode, SimCfg};
use solstrale::geo::Uv;
use solstrale::material::texture::{load_normal_texture, ImageMap, Texture};
use std::path::Path;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum How {
    Missing,
    Directory,
    Empty,
    Cut(f64),
    /// Bytes replaced.
    Noise(u64, u32),
    /// Width and height of a bitmap replaced.
    Claim(u32, u32),
    /// A line put in.
    Line(f64, String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Damage {
    pub file: String,
    pub how: How,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct B {
    pub m: Model,
    pub default: Option<Mat>,
    pub xf: Vec<Xf>,
    pub damage: Vec<Damage>,
    pub loaders: u32,
    /// Pictures also loaded on their own.
    pub direct: Vec<usize>,
    pub ray_seed: u64,
}

pub const RULE: &str = "Random models of one obj file, up to three libraries and any number of pictures are loaded by one to three threads while opens and reads fail (EIO, EACCES, ENOENT, EMFILE, ENOMEM, ESTALE), are interrupted, cut short or end early at random places, and while files are missing, directories, empty, truncated, overwritten or hold malformed lines; pictures are also loaded on their own. A load that succeeds is compared in full with an independent reading of the model unless its text itself was damaged; a missing or unreadable file that is needed must be an error; interruptions and short reads alone must change nothing; no load may panic, hang or leave a file open; and once everything is repaired the same load must give the whole model.";
pub const STUBS: &[&str] = &["file opens and reads (real files, failures injected by the simulator)"];
pub const QUICK_RUNS: u64 = 40000;

/// Address space a run has, in bytes.
const MEMORY: u64 = 2 << 30;

const HARD: &[i32] = &[libc::EIO, libc::EIO, libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ESTALE, libc::ENODEV];

fn bad_line(r: &mut Rng, obj: bool) -> String {
    let obj_lines = [
        "f 1 2 999999", "v 1 2", "v a b c", "v 1 2 3 0", "v 1 2 3 4 5", "vt 1", "vt", "vn 1 2", "f 0 0 0", "f -100 -5 1", "f 1/2/3/4 1 2", "f 1/9999 1/1 1/2", "f 1//9999 1 2", "usemtl", "mtllib", "mtllib none.mtl", "f", "f 1", "f 1 2", "l 1 2", "p 1",
        "f x y z", "f 1 2 3 4 5 6 7 8 9 10", "v nan 0 0", "v inf 1 2", "v 1e39 0 0", "v 1e-50 1e-45 0", "f 18446744073709551615 1 2", "f -9223372036854775808 1 2", "f 1 1 1", "o", "g", "usemtl \u{1F980}", "v 1 2 3 0.1 0.2 0.3",
    ];
    let mtl_lines = [
        "Kd", "Kd 0.5", "Kd 0.5 0.5", "Kd a b c", "Kd spectral some.rfl", "Kd 1 1 1 1", "Ka 1", "Ks 1 2", "Ke 0", "Ns", "Ns x", "illum", "illum x", "illum 300", "d", "Ni", "map_Kd", "map_Kd none.png", "map_Bump", "bump", "map_bump none.png", "map_Ka", "map_d", "newmtl", "newmtl  ",
        "map_Kd -s 1 1 1 pic0.png", "Tr 0.5", "Kd nan nan nan", "Kd 1e39 0 0", "Kd -1 -1 -1", "map_Kd .", "map_Kd ..", "refl x", "\u{1F980} 1",
    ];
    r.pick(if obj { &obj_lines[..] } else { &mtl_lines[..] }).to_string()
}

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = RngMode::Uniform;
    let m = files::gen(r);
    let f = m.files();
    if r.chance(0.5) {
        sim.short_read = *r.pick(&[1, 3, 17, 100, 1000]);
    }
    let small = sim.short_read > 0 && sim.short_read < 50;
    let kind = r.below(100);
    if kind < 65 {
        for _ in 0..r.int(1, 3) {
            let op = if r.chance(0.25) { IoOp::Open } else { IoOp::Read };
            let errno = match r.below(4) {
                0 => libc::EINTR,
                1 if op == IoOp::Read => 0,
                _ => *r.pick(HARD),
            };
            let nth = if small { r.log(1.0, 200.0) as u32 } else { r.int(1, 5) as u32 };
            let count = if errno == libc::EINTR { r.int(1, 4) as u32 } else { *r.pick(&[1, 1, 3, 1000]) };
            sim.io.push(IoFault { file: r.pick(&f).clone(), op, nth, count, errno });
        }
    }
    let mut damage = vec![];
    if kind >= 55 {
        for _ in 0..r.int(1, 2) {
            let file = r.pick(&f).clone();
            let text = file == MAIN || m.libs.iter().any(|l| l.file == file);
            let how = match r.below(10) {
                0 | 1 => How::Missing,
                2 => How::Directory,
                3 => How::Empty,
                4 => How::Cut(r.f()),
                5 if m.pictures.iter().any(|p| p.file == file && p.kind == Kind::Bmp) => How::Claim(r.log(1.0, 4e9) as u32, r.log(1.0, 4e9) as u32),
                6 if !text => How::Noise(r.u64(), r.log(1.0, 50.0) as u32),
                5 => How::Cut(r.f()),
                6 => How::Noise(r.u64(), r.int(1, 4) as u32),
                _ if text => How::Line(r.f(), bad_line(r, file == MAIN)),
                _ => How::Cut(1.0 - r.log(1e-3, 0.5)),
            };
            damage.push(Damage { file, how });
        }
    }
    sim.max_edges = 200_000_000;
    let default = match r.below(3) {
        0 => None,
        1 => Some(scenes::light(r)),
        _ => Some(scenes::mat(r, 1)),
    };
    let n = m.pictures.len();
    let direct = if n > 0 && r.chance(0.5) { (0..r.int(1, 3)).map(|_| r.below(n as u64) as usize).collect() } else { vec![] };
    let b = B { m, default, xf: scenes::xfs(r), damage, loaders: *r.pick(&[1, 1, 1, 2, 3]), direct, ray_seed: r.u64() };
    (sim, swarm::threads(r), b)
}

fn spoil(b: &B, dir: &Path) {
    for d in &b.damage {
        let path = dir.join(&d.file);
        let mut bytes = b.m.bytes(&d.file);
        match &d.how {
            How::Missing => {
                let _ = std::fs::remove_file(&path);
                continue;
            }
            How::Directory => {
                let _ = std::fs::remove_file(&path);
                let _ = std::fs::create_dir(&path);
                continue;
            }
            How::Empty => bytes.clear(),
            How::Cut(f) => bytes.truncate((bytes.len() as f64 * f) as usize),
            How::Noise(seed, n) => {
                let mut r = Rng::new(*seed);
                let k = bytes.len() as u64;
                let jpg = b.m.pictures.iter().any(|p| p.file == d.file && p.kind == Kind::Jpg);
                let sof = bytes.windows(2).position(|w| jpg && w[0] == 0xff && (0xc0..=0xc2).contains(&w[1])).map_or(0..0, |i| i..i + 10);
                for _ in 0..*n {
                    let (at, v) = (r.below(k.max(1)) as usize, r.below(256) as u8);
                    // a JPEG that claims to be huge takes as long as it claims
                    if k > 0 && !sof.contains(&at) {
                        bytes[at] = v;
                    }
                }
            }
            How::Claim(w, h) => {
                if bytes.len() > 26 && bytes.starts_with(b"BM") {
                    bytes[18..22].copy_from_slice(&w.to_le_bytes());
                    bytes[22..26].copy_from_slice(&h.to_le_bytes());
                }
            }
            How::Line(f, l) => {
                let ends: Vec<usize> = std::iter::once(0).chain(bytes.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1)).collect();
                let k = ends[((ends.len() as f64 * f) as usize).min(ends.len() - 1)];
                let mut l = l.clone().into_bytes();
                l.push(b'\n');
                bytes.splice(k..k, l);
            }
        }
        if !path.is_dir() {
            let _ = std::fs::write(&path, bytes);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Need {
    /// Nothing is wrong: the whole model.
    Whole,
    /// The whole model, or an error.
    WholeOrError,
    Error,
    /// Anything but a panic.
    Any,
}

fn is_text(m: &Model, file: &str) -> bool {
    file == MAIN || m.libs.iter().any(|l| l.file == file)
}

fn need(b: &B, io: &[IoFault], needed: &dyn Fn(&str) -> bool) -> Need {
    let mut n = Need::Whole;
    let mut add = |x: Need| {
        n = match (n, x) {
            // an error that is certain stays certain, whatever else is wrong
            (Need::Error, _) | (_, Need::Error) => Need::Error,
            (Need::Any, _) | (_, Need::Any) => Need::Any,
            (Need::WholeOrError, _) | (_, Need::WholeOrError) => Need::WholeOrError,
            _ => Need::Whole,
        }
    };
    let text = |f: &str| is_text(&b.m, f);
    let kind = |f: &str| b.m.pictures.iter().find(|p| p.file == f).map(|p| p.kind);
    // of several damages to one file only the last may be there
    let vague_text = b.damage.iter().any(|d| text(&d.file) && !matches!(d.how, How::Missing | How::Directory)) || io.iter().any(|f| f.errno == 0 && b.m.files().iter().any(|x| text(x) && x.ends_with(&f.file)));
    for d in &b.damage {
        if !needed(&d.file) {
            continue;
        }
        let alone = b.damage.iter().filter(|x| x.file == d.file).count() == 1;
        add(match &d.how {
            _ if !alone || io.iter().any(|f| f.errno == 0 && d.file.ends_with(&f.file)) => Need::Any,
            // a damaged text may not ask for this file any more
            How::Missing | How::Directory | How::Empty if vague_text && d.file != MAIN => Need::Any,
            How::Missing | How::Directory => Need::Error,
            How::Empty if !text(&d.file) => Need::Error,
            How::Cut(_) => match kind(&d.file) {
                Some(Kind::Jpg) | None => Need::Any,
                _ => Need::WholeOrError,
            },
            How::Noise(..) => match kind(&d.file) {
                Some(Kind::Png | Kind::PngGray | Kind::PngRgba) => Need::WholeOrError,
                _ => Need::Any,
            },
            _ => Need::Any,
        });
    }
    for f in io {
        if !b.m.files().iter().any(|x| x.ends_with(&f.file) && needed(x)) {
            continue;
        }
        add(match f.errno {
            libc::EINTR => Need::Whole,
            0 if text(&f.file) || kind(&f.file) == Some(Kind::Jpg) => Need::Any,
            _ => Need::WholeOrError,
        });
    }
    n
}

fn judge(b: &B, want: &files::Want, n: Need, got: Result<solstrale::hittable::Hittables, String>, seed: u64, when: &str, out: &mut RunOut) {
    out.probe("checked", 1);
    out.probe(
        match (&got, n) {
            (Ok(_), Need::Whole) => "sound_loads",
            (Ok(_), _) => "loads_despite_faults",
            (Err(_), _) => "refusals",
        },
        1,
    );
    match (n, got) {
        (Need::Any, _) | (Need::Error | Need::WholeOrError, Err(_)) => {}
        (Need::Error, Ok(_)) => out.fail("error-swallowed", format!("{when}: a needed file cannot be read ({:?}), yet the load succeeded", b.damage)),
        (Need::Whole, Err(e)) => out.fail("load-error", format!("{when}: refused: {e}")),
        (Need::Whole | Need::WholeOrError, Ok(w)) => {
            if let Err((c, d)) = files::judge(want, &w, 2, seed, &mut |k| out.probe(k, 1)) {
                out.fail(&format!("incomplete-{c}"), format!("{when}: {d}"));
            }
        }
    }
}

/// One picture loaded on its own.
fn picture(b: &B, i: usize, n: Need, dir: &Path, when: &str, out: &mut RunOut) {
    let path = dir.join(&b.m.pictures[i].file).display().to_string();
    for bump in [false, true] {
        let got = std::panic::catch_unwind(|| if bump { load_normal_texture(&path) } else { ImageMap::load(&path) });
        out.probe("checked", 1);
        out.probe("pictures", 1);
        match (n, got) {
            (_, Err(_)) => return out.fail("panic", format!("{when}: loading a picture panicked: {}", take_panics().join(" | "))),
            (Need::Any, _) | (Need::Error | Need::WholeOrError, Ok(Err(_))) => {}
            (Need::Error, Ok(Ok(_))) => return out.fail("error-swallowed", format!("{when}: a picture that cannot be read was loaded")),
            (Need::Whole, Ok(Err(e))) => return out.fail("load-error", format!("{when}: picture refused: {}", e.to_string().replace(&dir.display().to_string(), ""))),
            (Need::Whole | Need::WholeOrError, Ok(Ok(_))) if bump => {}
            (Need::Whole | Need::WholeOrError, Ok(Ok(t))) => {
                let want = Tex::Image(b.m.pixels(i));
                for k in 0..64 {
                    let uv = [(k % 8) as f64 / 8.0 + 0.0617, (k / 8) as f64 / 8.0 + 0.0613];
                    let mut amb = false;
                    let w = texel(&want, uv, &mut amb);
                    let g = of(t.color(Uv::new(uv[0] as f32, uv[1] as f32)));
                    if !amb && (w - g).max_abs() > 1e-6 {
                        return out.fail("incomplete-picture", format!("{when}: picture {i} has colour {:?} at {uv:?}, should be {:?}", g.arr(), w.arr()));
                    }
                }
            }
        }
    }
}

fn round(b: &B, io: &[IoFault], sound: bool, dir: &Path, want: &files::Want, when: &str, out: &mut RunOut) {
    let all = |f: &str| b.m.needs(f);
    let n = if sound { Need::Whole } else { need(b, io, &all) };
    let mut hs = vec![];
    for _ in 0..b.loaders {
        let (b, dir) = (b.clone(), dir.to_path_buf());
        hs.push(simrt::exempt(|| std::thread::spawn(move || files::load(&dir, &b.default, &b.xf))));
    }
    for (k, h) in hs.into_iter().enumerate() {
        match h.join() {
            Err(_) => out.fail("panic", format!("{when}: loading panicked: {}", take_panics().join(" | "))),
            Ok(got) => judge(b, want, n, got, b.ray_seed ^ k as u64, when, out),
        }
    }
    for &i in &b.direct {
        let one = |f: &str| f == b.m.pictures[i].file;
        let mut n = if sound { Need::Whole } else { need(b, io, &one) };
        // whether text is damaged is no matter here
        if !sound && n == Need::Any && b.damage.iter().filter(|d| one(&d.file)).count() == 1 && io.iter().all(|f| !one(&f.file)) {
            let d = b.damage.iter().find(|d| one(&d.file)).unwrap();
            if matches!(d.how, How::Missing | How::Directory | How::Empty) {
                n = Need::Error;
            }
        }
        picture(b, i, n, dir, when, out);
    }
    let left = simrt::report().open_fds;
    if left > 0 {
        out.fail("open-files", format!("{when}: {left} files left open"));
    }
}

pub fn exec(b: &B, mut sim: SimCfg, out: &mut RunOut, fin: Fin) {
    // memory ends at the same place on every machine
    let lim = libc::rlimit { rlim_cur: MEMORY, rlim_max: MEMORY };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    let dir = files::dir();
    b.m.write(&dir);
    spoil(b, &dir);
    let want = files::want(&b.m, &b.default, &b.xf);
    sim.io_prefix = dir.display().to_string();
    let io = sim.io.clone();
    let short = sim.short_read;
    simrt::start(sim, fin);
    round(b, &io, false, &dir, &want, "with faults", out);
    for d in &b.damage {
        if d.how == How::Directory {
            let _ = std::fs::remove_dir(dir.join(&d.file));
        }
    }
    simrt::set_io(vec![], short);
    b.m.write(&dir);
    round(b, &[], true, &dir, &want, "after the repair", out);
    no_stray_panics(out);
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn shrink(b: &B) -> Vec<B> {
    let mut v: Vec<B> = vec![];
    if b.loaders > 1 {
        v.push(B { loaders: 1, ..b.clone() });
    }
    if !b.direct.is_empty() {
        v.push(B { direct: vec![], ..b.clone() });
    }
    for i in 0..b.damage.len() {
        let mut d = b.damage.clone();
        d.remove(i);
        v.push(B { damage: d, ..b.clone() });
    }
    v.extend(files::shrink(&b.m).into_iter().map(|m| B { m, ..b.clone() }));
    if !b.xf.is_empty() {
        v.push(B { xf: vec![], ..b.clone() });
    }
    if b.default.is_some() {
        v.push(B { default: None, ..b.clone() });
    }
    v
}
