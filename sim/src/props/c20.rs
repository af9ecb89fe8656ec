//! A worker that is held up holds up only what it is working on.
use super::upset::complete;
use super::{must_be_ok, no_stray_panics, Fin};
use crate::core::RunOut;
use crate::prng::Rng;
use crate::render::*;
use crate::scenes;
use crate::spec::*;
use crate::swarm;
use crate::tiles::Tiles;
use serde::{Deserialize, Serialize};
use simrt::{ev, SimCfg};
use solstrale::renderer::Renderer;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum B {
    /// One high image whose rows all take the same.  The stalls are fractions of an undisturbed
    /// render's draws.
    Tall { t: Tiles, stalls: Vec<f64> },
    /// Anything.
    Any { s: SceneSpec, stalls: Vec<f64> },
    /// Several renders at once, one of them held up, while it traces or anywhere.
    OthersAny { s: Vec<SceneSpec>, stall: f64 },
    Others { t: Vec<Tiles>, share: bool, stall: f64, anywhere: bool },
}

pub const RULE: &str = "Each run makes a random one of the workers stand still at a random draw of random numbers (in the middle of a row) until nobody else has anything left to do. By then the others must have traced the rest of that sample except the row, all earlier reports must have arrived, and other renders of the same process must have returned; afterwards the render completes as ever.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 12000;

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = swarm::constant(r);
    sim.log_draws = true;
    let some = |r: &mut Rng, n: i64| (0..r.int(1, n)).map(|_| r.f()).collect::<Vec<_>>();
    match r.below(10) {
        0..=3 => {
            let threads = *r.pick(&[2, 2, 3, 4]);
            let mut t = Tiles::gen(r, 3, 8, 3);
            t.cam.aperture = 0.0;
            t.w = t.w.min(4);
            t.h = 16 * threads as usize + r.below(30) as usize;
            t.spp = t.spp.min(4);
            (sim, threads, B::Tall { t, stalls: some(r, threads as i64 - 1) })
        }
        4..=6 => {
            let threads = *r.pick(&[2, 2, 3, 4, 6]);
            let mut s = scenes::scene(r, &scenes::Opts { w: 6, h: 14, spp: 4, objs: 5, fog: true, posts: true, depth: 5 });
            super::c01::fix_posts(&mut s);
            s.h = s.h.max(2);
            (sim, threads, B::Any { s, stalls: some(r, threads as i64 - 1) })
        }
        7 => {
            let s = (0..r.int(2, 3))
                .map(|_| {
                    let mut s = scenes::scene(r, &scenes::Opts { w: 6, h: 6, spp: 3, objs: 4, fog: false, posts: true, depth: 4 });
                    super::c01::fix_posts(&mut s);
                    s
                })
                .collect();
            (sim, *r.pick(&[1, 1, 2, 3]), B::OthersAny { s, stall: r.f() })
        }
        _ => {
            let n = r.int(2, 3) as usize;
            let share = r.chance(0.4);
            let t = (0..n)
                .map(|i| {
                    let mut t = Tiles::gen(r, 4, 6, 4);
                    t.cap(60);
                    t.code0 = i * 4000;
                    t
                })
                .collect();
            (sim, *r.pick(&[1, 1, 2, 3]), B::Others { t, share, stall: r.f(), anywhere: r.chance(0.5) })
        }
    }
}

/// Renders once undisturbed and once held up; gives the latter, the events and draws before
/// it, and its draws.
fn held_up(s: &SceneSpec, stalls: &[f64], out: &mut RunOut) -> Option<(RenderOut, usize, u64, u64)> {
    let job = || Job { target: Target::Scene(Box::new(s.real())), abort: AbortPlan::Never, recv: RecvPlan::Drain };
    let a = mark().draws;
    let o = run_one(job());
    if !must_be_ok(out, "an undisturbed render", &o.end) {
        return None;
    }
    let cost = mark().draws - a;
    if cost == 0 || cost % s.spp as u64 != 0 {
        out.probe("inconclusive", 1);
        return None;
    }
    let job = job();
    let base = mark().draws;
    let since = simrt::report().events.len();
    simrt::set_stalls(stalls.iter().map(|f| base + 1 + (cost as f64 * f) as u64).collect());
    let o = run_one(job);
    if !must_be_ok(out, "a render with a worker that stood still", &o.end) {
        return None;
    }
    if mark().draws - base != cost {
        out.probe("inconclusive", 1);
        return None;
    }
    Some((o, since, base, cost))
}

struct Period {
    /// Who stood still, and at which draw the first of them.
    who: Vec<i64>,
    from: u64,
    to: u64,
    reports: u64,
    renders: u64,
    /// Others span, which is no answer.
    spun: bool,
}

/// What happened from the given event on.
fn periods(since: usize) -> Vec<Period> {
    let mut v: Vec<Period> = vec![];
    let mut open = false;
    let (mut reports, mut renders) = (0, 0);
    for e in &simrt::report().events[since..] {
        if e.kind == EV_REPORT {
            reports += 1;
        }
        if e.kind == EV_RENDER_END {
            renders += 1;
        }
        if e.kind == ev::STALL {
            if !open {
                v.push(Period { who: vec![], from: e.draws, to: 0, reports: 0, renders: 0, spun: false });
                open = true;
            }
            v.last_mut().unwrap().who.push(e.a);
        }
        if e.kind == ev::STALL_END {
            let p = v.last_mut().unwrap();
            (p.to, p.reports, p.renders, p.spun) = (e.draws, reports, renders, e.a == 1);
            open = false;
        }
    }
    v
}

fn single(s: &SceneSpec, stalls: &[f64], threads: u64, row: bool, out: &mut RunOut) -> Option<RenderOut> {
    let (o, since, base, cost) = held_up(s, stalls, out)?;
    let per = cost / s.spp as u64;
    let tids = simrt::report().draw_tids;
    for p in periods(since) {
        if p.who.len() as u64 >= threads || p.to == 0 || p.spun {
            out.probe("not_judged", 1);
            continue;
        }
        out.probe("checked", 1);
        let k = (p.from - base - 1) / per;
        let end = base + (k + 1) * per;
        let left = end.saturating_sub(p.to);
        let what = format!("{} of {threads} workers stood still in sample {} of {}", p.who.len(), k + 1, s.spp);
        if p.to > end + p.who.len() as u64 {
            // the next sample had begun: whoever stood still was not needed for this one
            out.probe("not_needed", 1);
            continue;
        }
        if row && per % s.h as u64 == 0 {
            out.probe("rows", 1);
            // as coarse as rayon's parallel iterators hand out work, and one more row
            let rows = (s.h as u64 >> (threads.ilog2() + 1)) + 2;
            if left > p.who.len() as u64 * rows * (per / s.h as u64) {
                out.fail("held-up", format!("{what}; the others left {left} of the sample's {per} draws undone, a row takes {}", per / s.h as u64));
                return None;
            }
        }
        if let Some(t) = tids[p.to as usize..(end as usize).min(tids.len())].iter().find(|t| !p.who.contains(&(**t as i64))) {
            out.fail("held-up", format!("{what}; with {left} of {per} draws to go the others had nothing left to do, but then thread {t} went on with it, too"));
            return None;
        }
        if p.reports < k {
            out.fail("report-held-up", format!("{what}; only {} reports had arrived", p.reports));
            return None;
        }
    }
    Some(o)
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    let threads = sim.cores as u64;
    simrt::start(sim, fin);
    super::upset::warm();
    match b {
        B::Tall { t, stalls } => {
            if let Some(o) = single(&t.scene(), stalls, threads, true, out) {
                complete(t, &o, "a render with a worker that stood still", out);
            }
        }
        B::Any { s, stalls } => {
            if let Some(o) = single(s, stalls, threads, false, out) {
                if o.reports.len() != s.spp as usize || o.reports.last().is_some_and(|r| r.img.is_none()) {
                    out.fail("report-count", format!("{} reports for {} samples", o.reports.len(), s.spp));
                }
            }
        }
        B::OthersAny { s, stall } => others_any(s, *stall, out),
        B::Others { t, share, stall, anywhere } => others(t, *share, *stall, *anywhere, out),
    }
    no_stray_panics(out);
}

fn others(t: &[Tiles], share: bool, stall: f64, anywhere: bool, out: &mut RunOut) {
    let shared = if share {
        match Renderer::new(t[0].scene().real()) {
            Ok(r) => Some(Arc::new(r)),
            Err(e) => return out.fail("render-error", format!("Renderer::new failed: {e}")),
        }
    } else {
        None
    };
    let of = |i: usize| if share { &t[0] } else { &t[i] };
    let jobs = || -> Vec<Job> {
        (0..t.len())
            .map(|i| Job {
                target: match &shared {
                    Some(r) => Target::Renderer(r.clone()),
                    None => Target::Scene(Box::new(t[i].scene().real())),
                },
                abort: AbortPlan::Never,
                recv: RecvPlan::Drain,
            })
            .collect()
    };
    let (a, e) = (mark().draws, simrt::edges());
    for (i, o) in run_jobs(jobs()).iter().enumerate() {
        if !complete(of(i), o, "an undisturbed render", out) {
            return;
        }
    }
    let (cost, edges) = (mark().draws - a, simrt::edges() - e);
    let jobs = jobs();
    let base = mark().draws;
    let since = simrt::report().events.len();
    if anywhere {
        simrt::set_edge_stalls(vec![simrt::edges() + 1 + (edges as f64 * stall) as u64]);
    } else {
        simrt::set_stalls(vec![base + 1 + (cost as f64 * stall) as u64]);
    }
    let outs = run_jobs(jobs);
    for p in periods(since) {
        if p.spun {
            out.probe("not_judged", 1);
            continue;
        }
        out.probe("checked", 1);
        out.probe("others", 1);
        if p.to > 0 && p.renders + 1 < t.len() as u64 {
            out.fail("others-held-up", format!("while a worker of one of {} renders stood still only {} of the others came to an end", t.len(), p.renders));
            return;
        }
    }
    for (i, o) in outs.iter().enumerate() {
        if !complete(of(i), o, "a render at the same time as one with a worker that stood still", out) {
            return;
        }
    }
}

fn others_any(s: &[SceneSpec], stall: f64, out: &mut RunOut) {
    let jobs = || -> Vec<Job> {
        s.iter().map(|s| Job { target: Target::Scene(Box::new(s.real())), abort: AbortPlan::Never, recv: RecvPlan::Drain }).collect()
    };
    let e = simrt::edges();
    for o in &run_jobs(jobs()) {
        if !must_be_ok(out, "an undisturbed render", &o.end) {
            return;
        }
    }
    let edges = simrt::edges() - e;
    let jobs = jobs();
    let since = simrt::report().events.len();
    simrt::set_edge_stalls(vec![simrt::edges() + 1 + (edges as f64 * stall) as u64]);
    let outs = run_jobs(jobs);
    for p in periods(since) {
        if p.spun {
            out.probe("not_judged", 1);
            continue;
        }
        out.probe("checked", 1);
        out.probe("others", 1);
        if p.to > 0 && p.renders + 1 < s.len() as u64 {
            out.fail("others-held-up", format!("while a thread of one of {} renders stood still only {} of the others came to an end", s.len(), p.renders));
            return;
        }
    }
    for (s, o) in s.iter().zip(&outs) {
        must_be_ok(out, "a render at the same time as one with a thread that stood still", &o.end);
        if o.reports.len() != s.spp as usize || o.reports.last().is_some_and(|r| r.img.is_none()) {
            out.fail("report-count", format!("{} reports for {} samples", o.reports.len(), s.spp));
        }
    }
}

pub fn shrink(b: &B) -> Vec<B> {
    match b {
        B::Tall { t, stalls } => {
            let mut v: Vec<B> = t.shrink().into_iter().map(|t| B::Tall { t, stalls: stalls.clone() }).collect();
            v.extend(fewer(stalls).into_iter().map(|stalls| B::Tall { t: t.clone(), stalls }));
            v
        }
        B::Any { s, stalls } => {
            let mut v: Vec<B> = scenes::shrink(s).into_iter().filter(|s| s.has_light()).map(|s| B::Any { s, stalls: stalls.clone() }).collect();
            v.extend(fewer(stalls).into_iter().map(|stalls| B::Any { s: s.clone(), stalls }));
            v
        }
        B::OthersAny { s, stall } => {
            let mut v = vec![];
            for i in 0..s.len() {
                if s.len() > 2 {
                    let mut q = s.clone();
                    q.remove(i);
                    v.push(B::OthersAny { s: q, stall: *stall });
                }
                for x in scenes::shrink(&s[i]).into_iter().filter(|s| s.has_light()) {
                    let mut q = s.clone();
                    q[i] = x;
                    v.push(B::OthersAny { s: q, stall: *stall });
                }
            }
            v
        }
        B::Others { t, share, stall, anywhere } => {
            let mk = |t: Vec<Tiles>| B::Others { t, share: *share, stall: *stall, anywhere: *anywhere };
            let mut v = vec![];
            for i in 0..t.len() {
                if t.len() > 2 {
                    let mut q = t.clone();
                    q.remove(i);
                    v.push(mk(q));
                }
                for x in t[i].shrink() {
                    let mut q = t.clone();
                    q[i] = x;
                    v.push(mk(q));
                }
            }
            v
        }
    }
}

fn fewer(l: &[f64]) -> Vec<Vec<f64>> {
    (0..if l.len() > 1 { l.len() } else { 0 })
        .map(|i| {
            let mut q = l.to_vec();
            q.remove(i);
            q
        })
        .collect()
}
