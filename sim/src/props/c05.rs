//! An abort signal stops the render promptly and cleanly.
use super::upset::*;
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::RunOut;
use crate::prng::Rng;
use crate::render::*;
use crate::spec::*;
use crate::swarm;
use crate::tiles::Tiles;
use serde::{Deserialize, Serialize};
use simrt::SimCfg;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Upset {
    Silent,
    SenderGone,
    SenderGoes(When),
    Before,
    Signal(When, bool),
    AfterReport(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct B {
    pub t: Tiles,
    pub u: Upset,
    pub lazy: bool,
}

pub const RULE: &str = "Each run renders a decodable scene while an abort signal (true or false) arrives, or the sending side disappears, at some step, random draw or sample border of the render, and compares what was traced, reported and returned with the moment it happened.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 16000;

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = swarm::constant(r);
    let t = gen_tiles(r, 5, 5, 9);
    let u = match r.below(10) {
        0 => Upset::Before,
        1 => Upset::AfterReport(r.int(1, t.spp as i64) as u32),
        2 => match r.below(3) {
            0 => Upset::Silent,
            1 => Upset::SenderGone,
            _ => Upset::SenderGoes(When::gen(r, t.spp)),
        },
        _ => Upset::Signal(When::gen(r, t.spp), r.chance(0.7)),
    };
    let lazy = r.chance(0.3) && !matches!(u, Upset::AfterReport(_));
    (sim, swarm::threads(r), B { t, u, lazy })
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    let alive = warm();
    if let Some(one) = cost_of_one(&b.t, out) {
        let base = mark();
        let t = &b.t;
        let abort = match &b.u {
            Upset::Silent => AbortPlan::Never,
            Upset::SenderGone => AbortPlan::Dropped,
            Upset::SenderGoes(w) => AbortPlan::DropAt(w.trig(&base, &one, t.spp)),
            Upset::Before => AbortPlan::Before,
            Upset::Signal(w, v) => AbortPlan::At(w.trig(&base, &one, t.spp), *v),
            Upset::AfterReport(n) => AbortPlan::AfterReport(*n),
        };
        let o = run_one(Job { target: Target::Scene(Box::new(t.scene().real())), abort, recv: if b.lazy { RecvPlan::Lazy } else { RecvPlan::Drain } });
        out.probe("checked", 1);
        match o.abort_sent {
            None => {
                complete(t, &o, "a render that nobody aborted", out);
                out.probe("undisturbed", 1);
            }
            Some(m) => {
                if must_be_ok(out, "the aborted render", &o.end) {
                    aborted(b, &o, m.draws - base.draws, one.draws, base.draws, out);
                }
            }
        }
        no_delay("the render", out);
        workers_gone(alive, "the render", out);
    }
    no_stray_panics(out);
}

fn aborted(b: &B, o: &RenderOut, at: u64, per: u64, base: u64, out: &mut RunOut) {
    let t = &b.t;
    let total = simrt::draws() - base;
    let c = at / per;
    let inside = at % per != 0;
    let n = t.spp as u64;
    prefix(t, &o.reports, out);
    if b.u == Upset::Before && (total != 0 || !o.reports.is_empty()) {
        out.fail("traced-after-abort", format!("signal sent before the start, but {total} random draws and {} reports followed", o.reports.len()));
        return;
    }
    if total > (c + 1).min(n) * per {
        out.fail("traced-after-abort", format!("signal sent {} draws into sample {} of {n}, but {} more samples were started", at % per, c + 1, (total - 1) / per - c));
        return;
    }
    let reps = o.reports.len() as u64;
    if reps > c + 1 {
        out.fail("reported-after-abort", format!("signal sent with {c} of {n} samples complete, but {reps} reports appeared"));
        return;
    }
    let sent = if inside { c } else { c.saturating_sub(1) };
    if reps < sent {
        out.fail("report-lost", format!("signal sent with {c} of {n} samples complete, but only {reps} reports appeared"));
        return;
    }
    for k in 0..sent as usize {
        if t.strat == Strat::Every && o.reports[k].img.is_none() {
            out.fail("missing-image", format!("report {} has no image", k + 1));
        }
    }
    if inside && reps == c + 1 && o.reports[c as usize].img.is_some() {
        out.fail("image-after-abort", format!("signal sent while sample {} was traced, but its report has an image", c + 1));
    }
    out.probe(if at >= n * per { "signal_late" } else if inside { "signal_inside_sample" } else { "signal_at_border" }, 1);
}

pub fn shrink(b: &B) -> Vec<B> {
    let mut v: Vec<B> = shrink_tiles(&b.t).into_iter().map(|t| B { t, ..b.clone() }).collect();
    if b.lazy {
        v.push(B { lazy: false, ..b.clone() });
    }
    if b.t.strat != Strat::Every {
        v.push(B { t: Tiles { strat: Strat::Every, ..b.t.clone() }, ..b.clone() });
    }
    v
}
