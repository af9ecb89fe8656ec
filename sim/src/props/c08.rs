//! Renders give back their threads; thread-creation failures are errors.
use super::upset::*;
use super::{no_stray_panics, Fin};
use crate::core::RunOut;
use crate::prng::Rng;
use crate::render::*;
use crate::spec::*;
use crate::swarm;
use crate::tiles::Tiles;
use serde::{Deserialize, Serialize};
use simrt::{RngMode, SimCfg};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum How {
    Plain,
    Abort(When),
    Leave(When),
    /// These thread creations (1 = first of this render) are refused.
    Refuse(Vec<u32>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct B {
    pub t: Tiles,
    pub rounds: Vec<How>,
    /// Renders at the same time in each round.
    pub together: u32,
    /// Instead of all this: a render with parallel post processors in a process that has not
    /// used a thread yet.
    #[serde(default)]
    pub cold: Option<Cold>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cold {
    pub w: usize,
    pub h: usize,
    pub spp: u32,
    pub posts: Vec<Post>,
    pub strat: Strat,
    /// Thread creations refused (1 = first of the process).
    pub refuse: Vec<u32>,
}

impl Cold {
    fn gen(r: &mut Rng, threads: u32) -> Cold {
        let n = threads as i64 * 3;
        let mut posts = vec![];
        for _ in 0..r.int(1, 3) {
            posts.push(match r.below(4) {
                0 => Post::Nop,
                _ => Post::Bloom { frac: r.range(0.0, 0.5), threshold: Some(r.range(0.0, 0.5)), max: None },
            });
        }
        let refuse = match r.below(4) {
            0 => (r.int(1, n) as u32..=n as u32).collect(),
            1 => vec![r.int(1, n) as u32],
            2 => (threads + 1..=n as u32).collect(),
            _ => (1..=n as u32).filter(|_| r.chance(0.3)).collect(),
        };
        Cold { w: r.int(1, 9) as usize, h: r.int(1, 9) as usize, spp: r.int(1, 4) as u32, posts, strat: if r.chance(0.5) { Strat::Every } else { Strat::Final }, refuse }
    }

    /// A lamp that fills the view.
    fn scene(&self) -> SceneSpec {
        SceneSpec {
            objs: vec![Obj::Quad { q: [-50.0, -50.0, -1.0], u: [100.0, 0.0, 0.0], v: [0.0, 100.0, 0.0], mat: Mat::Light { rgb: [0.2, 0.1, 0.3], half: None }, xf: vec![] }],
            cam: Cam { fov: 50.0, aperture: 0.0, from: [0.0; 3], at: [0.0, 0.0, -1.0], up: [0.0, 1.0, 0.0] },
            bg: [0.0; 3],
            w: self.w,
            h: self.h,
            spp: self.spp,
            shader: Sh::Path(3),
            posts: self.posts.clone(),
            strat: self.strat.clone(),
        }
    }

    fn exec(&self, out: &mut RunOut) {
        let run = |refuse: &[u32]| {
            let s = self.scene().real();
            let n = simrt::spawns();
            simrt::set_spawn_fail(refuse.iter().map(|k| n + k).collect());
            let o = run_one(Job { target: Target::Scene(Box::new(s)), abort: AbortPlan::Never, recv: RecvPlan::Drain });
            simrt::set_spawn_fail(vec![]);
            o
        };
        let first = run(&self.refuse);
        let second = run(&[]);
        out.probe("checked", 1);
        out.probe("cold_starts", 1);
        let plain = |o: &RenderOut, what: &str, out: &mut RunOut| {
            if !super::must_be_ok(out, what, &o.end) {
                return false;
            }
            if o.reports.len() as u32 != self.spp || o.reports.last().is_some_and(|r| r.img.is_none()) {
                out.fail("report-count", format!("{what}: {} reports for {} samples", o.reports.len(), self.spp));
                return false;
            }
            true
        };
        if !plain(&second, "an undisturbed render after one with threads refused", out) {
            return;
        }
        match &first.end {
            End::Panic(p) => out.fail("panic", format!("a render with thread creations {:?} of the process refused panicked: {p}", self.refuse)),
            End::Hung => out.fail("hang", format!("a render with thread creations {:?} of the process refused never returned", self.refuse)),
            End::Err(_) => out.probe("refused_with_error", 1),
            End::Ok => {
                out.probe("refused_but_completed", 1);
                if plain(&first, "a render with threads refused", out) {
                    let img = |o: &RenderOut| o.reports.last().and_then(|r| r.img.as_ref().map(|i| i.px.clone()));
                    if img(&first) != img(&second) {
                        out.fail("image", format!("the image of a render with thread creations {:?} refused is not that of an undisturbed one", self.refuse));
                    }
                }
            }
        }
    }
}

pub const RULE: &str = "Each run does one to five rounds of one or two simultaneous renders that finish, are aborted, lose their receiver or have some of their thread creations refused, and after every round counts live threads and judges the results; the last round is always undisturbed. Some runs start in a process without any thread, so that the threads refused are those of post processors too.";
pub const STUBS: &[&str] = &[];
pub const QUICK_RUNS: u64 = 12000;

pub fn gen(r: &mut Rng, _i: u64) -> (SimCfg, u32, B) {
    let mut sim = swarm::sim(r);
    sim.rng = RngMode::Margin;
    let mut t = gen_tiles(r, 4, 4, 4);
    t.cap(120);
    let threads = swarm::threads(r);
    let mut rounds = vec![];
    for _ in 0..r.int(1, 4) {
        rounds.push(match r.below(7) {
            0 => How::Plain,
            1 => How::Abort(When::gen(r, t.spp)),
            2 => How::Leave(When::gen(r, t.spp)),
            _ => {
                let n = threads as i64 * 2;
                let mut v: Vec<u32> = match r.below(5) {
                    // none at all any more
                    4 => vec![r.int(1, n) as u32, u32::MAX],
                    0 => (1..=n as u32).collect(),
                    1 => vec![r.int(1, threads as i64) as u32],
                    2 => (r.int(1, n) as u32..=n as u32).collect(),
                    _ => (1..=n as u32).filter(|_| r.chance(0.4)).collect(),
                };
                v.dedup();
                How::Refuse(v)
            }
        });
    }
    rounds.push(How::Plain);
    let together = if r.chance(0.3) { 2 } else { 1 };
    let cold = if r.chance(0.15) { Some(Cold::gen(r, threads)) } else { None };
    (sim, threads, B { t, rounds, together, cold })
}

pub fn exec(b: &B, sim: SimCfg, out: &mut RunOut, fin: Fin) {
    simrt::start(sim, fin);
    if let Some(c) = &b.cold {
        c.exec(out);
        return no_stray_panics(out);
    }
    let alive = warm();
    if let Some(one) = cost_of_one(&b.t, out) {
        workers_gone(alive, "an undisturbed render", out);
        for (i, how) in b.rounds.iter().enumerate() {
            let base = mark();
            // built before threads are refused: refusals concern the render itself
            let scenes: Vec<_> = (0..b.together).map(|_| b.t.scene().real()).collect();
            if let How::Refuse(l) = how {
                let s = simrt::spawns();
                simrt::set_spawn_fail(l.iter().map(|k| s.saturating_add(*k)).collect());
            }
            let jobs = scenes
                .into_iter()
                .map(|s| Job {
                    target: Target::Scene(Box::new(s)),
                    abort: if let How::Abort(w) = how { AbortPlan::At(w.trig(&base, &one, b.t.spp), true) } else { AbortPlan::Never },
                    recv: if let How::Leave(w) = how { RecvPlan::DropAt(w.trig(&base, &one, b.t.spp)) } else { RecvPlan::Drain },
                })
                .collect();
            let outs = run_jobs(jobs);
            simrt::set_spawn_fail(vec![]);
            out.probe("checked", 1);
            for o in &outs {
                let what = format!("the render of round {} ({how:?})", i + 1);
                match (&o.end, how) {
                    (End::Panic(p), _) => out.fail("panic", format!("{what} panicked: {p}")),
                    (End::Hung, _) => out.fail("hang", format!("{what} never returned")),
                    (End::Err(e), How::Plain | How::Abort(_)) => out.fail("render-error", format!("{what} returned an error: {e}")),
                    (End::Err(_), How::Refuse(_)) => {
                        out.probe("refused_with_error", 1);
                        prefix(&b.t, &o.reports, out);
                    }
                    (End::Ok, How::Plain) => {
                        complete(&b.t, o, &what, out);
                    }
                    (End::Ok, How::Refuse(_)) => {
                        out.probe("refused_but_completed", 1);
                        complete(&b.t, o, &what, out);
                    }
                    _ => prefix(&b.t, &o.reports, out),
                }
            }
            workers_gone(alive, &format!("round {} ({how:?})", i + 1), out);
            if !out.viol.is_empty() {
                break;
            }
        }
    }
    no_stray_panics(out);
}

pub fn shrink(b: &B) -> Vec<B> {
    if let Some(c) = &b.cold {
        let mk = |c: Cold| B { cold: Some(c), ..b.clone() };
        let mut v = vec![];
        for (w, h, spp) in [(1, c.h, c.spp), (c.w, 1, c.spp), (c.w, c.h, 1)] {
            if (w, h, spp) != (c.w, c.h, c.spp) {
                v.push(mk(Cold { w, h, spp, ..c.clone() }));
            }
        }
        for k in 0..c.refuse.len() {
            let mut x = c.clone();
            x.refuse.remove(k);
            v.push(mk(x));
        }
        for k in 0..c.posts.len() {
            let mut x = c.clone();
            x.posts.remove(k);
            v.push(mk(x));
        }
        return v;
    }
    let mut v: Vec<B> = shrink_tiles(&b.t).into_iter().map(|t| B { t, ..b.clone() }).collect();
    for i in 0..b.rounds.len() {
        if b.rounds.len() > 1 {
            let mut x = b.rounds.clone();
            x.remove(i);
            v.push(B { rounds: x, ..b.clone() });
        }
        if let How::Refuse(l) = &b.rounds[i] {
            for k in 0..l.len() {
                if l.len() > 1 {
                    let mut l2 = l.clone();
                    l2.remove(k);
                    let mut x = b.rounds.clone();
                    x[i] = How::Refuse(l2);
                    v.push(B { rounds: x, ..b.clone() });
                }
            }
        }
    }
    if b.together > 1 {
        v.push(B { together: 1, ..b.clone() });
    }
    v
}
