//! Images appear as often as the strategy says, under any clock.
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::RunOut;
use crate::hist;
use crate::prng::Rng;
use crate::render::*;
use crate::spec::*;
use crate::swarm;
use crate::tiles::Tiles;
use serde::{Deserialize, Serialize};
use simrt::{At, SimCfg};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct B {
    pub t: Tiles,
}

pub const RULE: &str = "Each run renders a small scene with one of the image strategies while the clock is slow or fast, coarse, standing still, far from the present or stepped forwards and backwards at readings and draws, and judges the presence of every image from the recorded clock readings.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 16000;

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = swarm::constant(r);
    sim.log_draws = true;
    let mut t = Tiles::gen(r, 4, 4, 24);
    t.cam.aperture = 0.0;
    if r.chance(0.2) {
        t.spp = r.int(24, 60) as u32;
        t.w = 2;
        t.h = 1;
    }
    let n = t.spp as i64;
    let px = (t.w * t.h) as f64;
    // a sample takes some thousand steps per pixel
    let sample_ns = sim.edge_ns as f64 * 3000.0 * px;
    let d = match r.below(12) {
        0 => 0,
        1 => r.log(1.0, 1e18) as u64,
        _ => (sample_ns * r.log(0.05, 12.0)) as u64,
    };
    t.strat = match r.below(10) {
        0 => Strat::Every,
        1 => Strat::Final,
        _ => Strat::Interval(d),
    };
    let draws = n * (2 * t.w * t.h) as i64;
    match r.below(5) {
        0 => {}
        4 => {
            // intervals a whisker shorter or longer than what passes on a coarse clock
            let g = (sample_ns * r.log(0.1, 3.0)).clamp(2.0, 1e9) as u64;
            sim.clock.granularity = g;
            if let Strat::Interval(d) = &mut t.strat {
                let k = r.int(1, 6) as u64;
                *d = k * g - 1 + r.int(0, 2) as u64;
            }
        }
        1 => sim.clock = swarm::wild_clock(r, draws as u64, n as u64 + 2),
        _ => {
            if r.chance(0.3) {
                sim.clock.granularity = ((d as f64 * r.log(0.1, 3.0)) as u64).clamp(1, 1_000_000_000);
            }
            for _ in 0..r.int(0, 5) {
                let at = if r.chance(0.6) { At::Read(r.int(1, n + 2) as u64) } else { At::Draw(r.int(1, draws) as u64) };
                let mag = (d as f64 * r.log(0.2, 20.0)).min(1e18) as i64;
                sim.clock.jumps.push((at, if r.chance(0.5) { mag } else { -mag }));
            }
        }
    }
    (sim, swarm::threads(r), B { t })
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    let clock = sim.clock.clone();
    simrt::start(sim, fin);
    let t = &b.t;
    let o = run_one(Job { target: Target::Scene(Box::new(t.scene().real())), abort: AbortPlan::Never, recv: RecvPlan::Drain });
    if must_be_ok(out, "the render", &o.end) {
        if o.reports.len() as u32 != t.spp {
            out.fail("report-count", format!("{} reports for {} samples", o.reports.len(), t.spp));
        } else {
            let last = o.reports.len() - 1;
            if o.reports[last].img.is_none() {
                out.fail("no-final-image", "the last report carries no image");
            }
            match t.strat {
                Strat::Every => {
                    out.probe("checked", 1);
                    if let Some(k) = o.reports.iter().position(|r| r.img.is_none()) {
                        out.fail("missing-image", format!("report {} of {} has no image although one per sample was asked for", k + 1, t.spp));
                    }
                }
                Strat::Final => {
                    out.probe("checked", 1);
                    if let Some(k) = o.reports[..last].iter().position(|r| r.img.is_some()) {
                        out.fail("extra-image", format!("report {} of {} has an image although only the final one was asked for", k + 1, t.spp));
                    }
                }
                Strat::Interval(d) => interval(t, &o, d.min(i64::MAX as u64) as i64, &clock, out),
            }
        }
    }
    no_stray_panics(out);
}

fn interval(t: &Tiles, o: &RenderOut, d: i64, clock: &simrt::ClockCfg, out: &mut RunOut) {
    let Some(w) = hist::windows(clock, t.spp as u64) else {
        out.probe("inconclusive", 1);
        return;
    };
    out.probe("checked", 1);
    let n = o.reports.len();
    let mut last: Option<usize> = None;
    for k in 0..n - 1 {
        let has = o.reports[k].img.is_some();
        let (base, what) = match last {
            Some(j) => (&w.after[j], format!("the image in report {}", j + 1)),
            None => (&w.start, "the start".to_string()),
        };
        let (wmin, wmax) = hist::diff(base, &w.after[k], true);
        let (mmin, mmax) = hist::diff(base, &w.after[k], false);
        let epoch_ok = last.is_some() || w.start.iter().all(|s| s.0 >= 0);
        if !has && wmin > d && mmin > d && epoch_ok {
            out.fail("missing-image", format!("report {} of {n} has no image although at least {} ns passed since {what} and the interval is {d} ns", k + 1, wmin.min(mmin)));
            return;
        }
        if has && last.is_some() && wmax <= d && mmax <= d {
            out.fail("extra-image", format!("report {} of {n} has an image although at most {} ns passed since {what} and the interval is {d} ns", k + 1, wmax.max(mmax)));
            return;
        }
        out.probe(if has { "interval_images" } else { "interval_gaps" }, 1);
        if has {
            last = Some(k);
        }
    }
}

pub fn shrink(b: &B) -> Vec<B> {
    b.t.shrink().into_iter().map(|mut t| {
        t.cam.aperture = 0.0;
        B { t }
    }).collect()
}
