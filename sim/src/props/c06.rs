//! A vanished receiver ends the render with an error, soon and without a panic.
use super::upset::*;
use super::{no_stray_panics, Fin};
use crate::core::RunOut;
use crate::prng::Rng;
use crate::render::*;
use crate::spec::*;
use crate::swarm;
use crate::tiles::Tiles;
use serde::{Deserialize, Serialize};
use simrt::SimCfg;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Leave {
    At(When),
    After(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct B {
    pub t: Tiles,
    pub leave: Leave,
    pub abort_gone: bool,
}

pub const RULE: &str = "Each run renders a decodable scene while the receiver of the reports is dropped before the start, after some reports or at some step, random draw or sample border, and compares what was traced, reported and returned with the moment it happened.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 16000;

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = swarm::constant(r);
    let t = gen_tiles(r, 5, 5, 9);
    let leave = if r.chance(0.35) { Leave::After(r.int(0, t.spp as i64) as u32) } else { Leave::At(When::gen(r, t.spp)) };
    (sim, swarm::threads(r), B { t, leave, abort_gone: r.chance(0.2) })
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    let alive = warm();
    if let Some(one) = cost_of_one(&b.t, out) {
        let base = mark();
        let t = &b.t;
        let recv = match &b.leave {
            Leave::At(w) => RecvPlan::DropAt(w.trig(&base, &one, t.spp)),
            Leave::After(n) => RecvPlan::DropAfter(*n),
        };
        let o = run_one(Job { target: Target::Scene(Box::new(t.scene().real())), abort: if b.abort_gone { AbortPlan::Dropped } else { AbortPlan::Never }, recv });
        out.probe("checked", 1);
        match o.recv_dropped {
            None => {
                complete(t, &o, "a render whose receiver stayed", out);
                out.probe("undisturbed", 1);
            }
            Some(m) => left(t, &o, m.draws - base.draws, one.draws, base.draws, out),
        }
        workers_gone(alive, "the render", out);
    }
    no_stray_panics(out);
}

fn left(t: &Tiles, o: &RenderOut, at: u64, per: u64, base: u64, out: &mut RunOut) {
    let total = simrt::draws() - base;
    let n = t.spp as u64;
    let c = at / per;
    prefix(t, &o.reports, out);
    match &o.end {
        End::Panic(p) => {
            out.fail("panic", format!("the render panicked: {p}"));
            return;
        }
        End::Hung => {
            out.fail("hang", "the render never returned");
            return;
        }
        End::Ok if at < n * per => {
            out.fail("no-error", format!("the receiver left with {c} of {n} samples complete, but the render returned success"));
            return;
        }
        End::Err(e) if o.reports.len() as u64 == n => {
            out.fail("render-error", format!("all {n} reports were delivered, but the render returned an error: {e}"));
            return;
        }
        _ => {}
    }
    if total > (c + 2).min(n) * per {
        out.fail("traced-after-loss", format!("the receiver left with {c} of {n} samples complete, but {} were traced", (total + per - 1) / per));
        return;
    }
    if o.reports.len() as u64 > c {
        out.fail("reported-early", format!("{} reports with {c} samples complete", o.reports.len()));
        return;
    }
    out.probe(if at >= n * per { "loss_late" } else if at % per != 0 { "loss_inside_sample" } else { "loss_at_border" }, 1);
}

pub fn shrink(b: &B) -> Vec<B> {
    let mut v: Vec<B> = shrink_tiles(&b.t).into_iter().map(|t| B { t, ..b.clone() }).collect();
    if b.abort_gone {
        v.push(B { abort_gone: false, ..b.clone() });
    }
    if b.t.strat != Strat::Every {
        v.push(B { t: Tiles { strat: Strat::Every, ..b.t.clone() }, ..b.clone() });
    }
    v
}
