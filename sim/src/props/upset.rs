//! Shared parts of the properties about renders that are disturbed while they run.
use crate::core::RunOut;
use crate::prng::Rng;
use crate::render::*;
use crate::spec::*;
use crate::tiles::Tiles;
use serde::{Deserialize, Serialize};
use simrt::Trig;

/// A moment, as a fraction of an undisturbed render.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum When {
    /// Fraction of its random draws.
    Draw(f64),
    /// Fraction of its instrumented steps.
    Step(f64),
    /// At the border between two samples: the last draw of sample n and so many steps.
    Border(u32),
}

impl When {
    pub fn gen(r: &mut Rng, spp: u32) -> When {
        match r.below(5) {
            0 | 1 => When::Draw(r.range(0.0, 1.03)),
            2 => When::Border(r.int(0, spp as i64) as u32),
            _ => When::Step(r.range(0.0, 1.05)),
        }
    }
    pub fn trig(&self, base: &Mark, one: &Mark, spp: u32) -> Trig {
        match *self {
            When::Draw(f) => Trig::Draw(base.draws + (one.draws as f64 * spp as f64 * f) as u64),
            When::Step(f) => Trig::Edge(base.edges + (one.edges as f64 * spp as f64 * f) as u64),
            When::Border(n) => Trig::Draw(base.draws + one.draws * n as u64),
        }
    }
}

/// What one sample of this scene costs, from an undisturbed render of a single
/// sample: (draws, steps).  None if even that fails.
pub fn cost_of_one(t: &Tiles, out: &mut RunOut) -> Option<Mark> {
    let one = Tiles { spp: 1, ..t.clone() };
    let a = mark();
    let o = run_one(Job { target: Target::Scene(Box::new(one.scene().real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
    let b = o.ended.unwrap_or(mark());
    if o.end != End::Ok {
        out.fail("render-error", format!("an undisturbed render ended with {:?}", o.end));
        return None;
    }
    let m = Mark { draws: b.draws - a.draws, edges: b.edges - a.edges };
    if m.draws == 0 {
        out.fail("no-sampling", "a render of one sample used no random numbers");
        return None;
    }
    Some(m)
}

/// The reports seen are a correct prefix of an undisturbed render's.
pub fn prefix(t: &Tiles, reports: &[Rep], out: &mut RunOut) {
    if reports.len() as u32 > t.spp {
        out.fail("report-count", format!("{} reports for {} samples", reports.len(), t.spp));
        return;
    }
    for (i, r) in reports.iter().enumerate() {
        let want = (i + 1) as f64 / t.spp as f64;
        if (r.progress - want).abs() > 1e-6 || !r.progress.is_finite() {
            out.fail("progress", format!("report {} of {} has progress {}", i + 1, t.spp, r.progress));
            return;
        }
    }
    match t.check(reports) {
        Ok((n, ..)) => out.probe("tile_images", n),
        Err(e) => out.fail("image", e),
    }
}

/// An undisturbed render: every report, every image, success.
pub fn complete(t: &Tiles, o: &RenderOut, what: &str, out: &mut RunOut) -> bool {
    if !super::must_be_ok(out, what, &o.end) {
        return false;
    }
    if o.reports.len() as u32 != t.spp {
        out.fail("report-count", format!("{what}: {} reports for {} samples", o.reports.len(), t.spp));
        return false;
    }
    prefix(t, &o.reports, out);
    for (i, r) in o.reports.iter().enumerate() {
        let last = i + 1 == o.reports.len();
        if r.img.is_none() && (last || t.strat == Strat::Every) {
            out.fail("missing-image", format!("{what}: report {} of {} has no image", i + 1, t.spp));
            return false;
        }
        if r.img.is_some() && !last && t.strat == Strat::Final {
            out.fail("extra-image", format!("{what}: report {} of {} has an image", i + 1, t.spp));
            return false;
        }
    }
    true
}

/// Starts the process-wide pool (used while scenes are built); returns the number of live threads.
pub fn warm() -> usize {
    rayon::join(|| (), || ());
    simrt::wait_idle();
    simrt::alive_workers()
}

/// Nothing waited for time to pass.
pub fn no_delay(what: &str, out: &mut RunOut) {
    let n = simrt::report().counts.timer_jumps;
    if n > 0 {
        out.fail("delayed", format!("{what} waited for time to pass, {n} times"));
    }
}

/// No thread made by the code under test is left.
pub fn workers_gone(baseline: usize, what: &str, out: &mut RunOut) {
    let n = simrt::alive_workers();
    if n > baseline {
        out.fail("threads-leaked", format!("{} worker threads are still alive after {what}", n - baseline));
    }
}

pub fn gen_tiles(r: &mut Rng, w: i64, h: i64, spp: i64) -> Tiles {
    let mut t = Tiles::gen(r, w, h, spp);
    t.cam.aperture = 0.0;
    if r.chance(0.4) {
        t.strat = match r.below(2) {
            0 => Strat::Final,
            _ => Strat::Interval(r.log(1.0, 1e7) as u64),
        };
    }
    t
}

pub fn shrink_tiles(t: &Tiles) -> Vec<Tiles> {
    t.shrink()
        .into_iter()
        .map(|mut t| {
            t.cam.aperture = 0.0;
            t
        })
        .collect()
}
