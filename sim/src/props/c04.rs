//! Reported speed and remaining time are sane under any clock.
use super::{no_stray_panics, Fin};
use crate::core::RunOut;
use crate::hist;
use crate::prng::Rng;
use crate::render::*;
use crate::spec::*;
use crate::swarm;
use crate::tiles::Tiles;
use serde::{Deserialize, Serialize};
use simrt::{At, SimCfg};
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct B {
    pub t: Tiles,
    /// Samples asked for; the receiver leaves after `t.spp` reports if that is less.
    pub total: u32,
    /// Clock without faults: values are compared.
    pub steady: bool,
}

pub const RULE: &str = "Each run renders a small scene, half of them with a steady clock of any speed (values compared with the recorded clock readings), the others with a clock that is stepped, coarse, standing still or at the ends of its range (values must be finite and valid), some with billions of samples asked for and a receiver that leaves after a few.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 16000;

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = swarm::constant(r);
    sim.log_draws = true;
    let mut t = Tiles::gen(r, 3, 3, 20);
    t.cam.aperture = 0.0;
    t.strat = match r.below(3) {
        0 => Strat::Every,
        1 => Strat::Final,
        _ => Strat::Interval(r.log(1.0, 1e9) as u64),
    };
    let steady = r.chance(0.5);
    if !steady {
        sim.clock = swarm::wild_clock(r, t.spp as u64 * (t.w * t.h * 2) as u64, t.spp as u64 + 2);
        if r.chance(0.15) {
            // from one end of the clock's range to the other
            sim.clock.wall_base = -r.int(1, 4_000_000_000) * 1_000_000_000;
            sim.clock.jumps = vec![(At::Read(r.int(1, t.spp as i64 + 1) as u64), r.int(1, 9_200_000_000) * 1_000_000_000)];
        }
    }
    if r.chance(0.1) {
        sim.edge_ns = r.log(1e5, 1e9) as u64;
    }
    let far = sim.clock.jumps.first().is_some_and(|j| j.1 > 4_000_000_000_000_000_000);
    let total = if far && r.chance(0.5) { r.log(1e9, u32::MAX as f64) as u32 } else if !steady && r.chance(0.2) { r.log(100.0, u32::MAX as f64) as u32 } else { t.spp };
    if total > t.spp {
        // the receiver must get to leave in the end
        sim.policy = simrt::Policy::Random { mean: r.log(8.0, 1000.0) as u32 };
    }
    (sim, swarm::threads(r), B { t, total, steady })
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    let clock = sim.clock.clone();
    simrt::start(sim, fin);
    let n = b.t.spp.min(b.total);
    let mut spec = b.t.scene();
    spec.spp = b.total;
    let cut = b.total > n;
    let o = run_one(Job {
        target: Target::Scene(Box::new(spec.real())),
        abort: AbortPlan::Never,
        recv: if cut { RecvPlan::DropAfter(n) } else { RecvPlan::Drain },
    });
    match &o.end {
        End::Panic(p) => out.fail("panic", format!("the render panicked: {p}")),
        End::Hung => out.fail("hang", "the render never returned"),
        End::Err(e) if !cut => out.fail("render-error", format!("the render returned an error: {e}")),
        _ => {
            out.probe("checked", 1);
            let w = if b.steady && !cut { hist::windows(&clock, b.total as u64) } else { None };
            for (i, r) in o.reports.iter().enumerate() {
                let k = i as u32 + 1;
                match r.fps {
                    Some(f) if f.is_finite() && f > 0.0 => {}
                    f => {
                        out.fail("fps", format!("report {k} of {} has {f:?} frames per second", b.total));
                        break;
                    }
                }
                if k == b.total && r.eta != Duration::ZERO {
                    out.fail("eta", format!("the last report has {:?} left", r.eta));
                    break;
                }
                if let Some(w) = &w {
                    let (lo, hi) = hist::diff(&w.start, &w.after[i], true);
                    if lo < 1 {
                        continue;
                    }
                    let fps = r.fps.unwrap();
                    let (flo, fhi) = (k as f64 / (hi as f64 * 1e-9), k as f64 / (lo as f64 * 1e-9));
                    if fps < flo * (1.0 - 1e-6) || fps > fhi * (1.0 + 1e-6) {
                        out.fail("fps", format!("report {k} of {} has {fps} frames per second, {k} samples took {lo} to {hi} ns", b.total));
                        break;
                    }
                    let left = (b.total - k) as f64;
                    let (elo, ehi) = (lo as f64 / k as f64 * left, hi as f64 / k as f64 * left);
                    let eta = r.eta.as_secs_f64() * 1e9;
                    if eta < elo * (1.0 - 1e-5) - 2.0 - left || eta > ehi * (1.0 + 1e-5) + 2.0 + left {
                        out.fail("eta", format!("report {k} of {} has {:?} left, {k} samples took {lo} to {hi} ns", b.total, r.eta));
                        break;
                    }
                    out.probe("values_compared", 1);
                }
            }
        }
    }
    no_stray_panics(out);
}

pub fn shrink(b: &B) -> Vec<B> {
    let mut v: Vec<B> = b
        .t
        .shrink()
        .into_iter()
        .map(|mut t| {
            t.cam.aperture = 0.0;
            let total = if b.total == b.t.spp { t.spp } else { b.total };
            B { t, total, steady: b.steady }
        })
        .collect();
    if b.total > b.t.spp {
        v.push(B { total: b.t.spp.max(b.total / 2), ..b.clone() });
    }
    v
}
