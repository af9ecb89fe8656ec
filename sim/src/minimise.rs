//! Shrinks a violating plan while the class of the violation stays the same:
//! first its inputs and faults, then its schedule.
use crate::core::{run_plan, Plan, RunOut};
use crate::props;
use simrt::{ClockCfg, Policy};
use std::time::Instant;

fn sim_shrinks(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        v.push(q);
    };
    if p.sim.policy != Policy::Coop {
        push(&|q| q.sim.policy = Policy::Coop);
    }
    if p.threads > 1 {
        push(&|q| q.threads = 1);
    }
    if p.threads > 2 {
        push(&|q| q.threads = 2);
        push(&|q| q.threads -= 1);
    }
    if p.sim.spurious > 0 {
        push(&|q| q.sim.spurious = 0);
    }
    if p.sim.wake_random {
        push(&|q| q.sim.wake_random = false);
    }
    if p.sim.short_read > 0 {
        push(&|q| q.sim.short_read = 0);
    }
    for i in 0..p.sim.io.len() {
        push(&|q| {
            q.sim.io.remove(i);
        });
    }
    for i in 0..p.sim.spawn_fail.len() {
        push(&|q| {
            q.sim.spawn_fail.remove(i);
        });
    }
    for i in 0..p.sim.clock.jumps.len() {
        push(&|q| {
            q.sim.clock.jumps.remove(i);
        });
    }
    if p.sim.clock.frozen {
        push(&|q| q.sim.clock.frozen = false);
    }
    if p.sim.clock.granularity > 0 {
        push(&|q| q.sim.clock.granularity = 0);
    }
    if p.sim.clock.wall_base != ClockCfg::default().wall_base {
        push(&|q| q.sim.clock.wall_base = ClockCfg::default().wall_base);
    }
    if p.sim.edge_ns != 100 {
        push(&|q| q.sim.edge_ns = 100);
    }
    v
}

pub fn minimise(plan: &mut Plan, first: &RunOut, secs: f64) -> (Plan, RunOut) {
    let t0 = Instant::now();
    let class = first.class().unwrap_or("").to_string();
    let mut best = plan.clone();
    let mut best_out = run_plan(&best);
    if best_out.class() != Some(class.as_str()) {
        return (best, first.clone());
    }
    let slow = class == "hang";
    let budget = if slow { secs.min(30.0) } else { secs };
    // 1. Inputs and faults.
    let mut progress = true;
    while progress && t0.elapsed().as_secs_f64() < budget * 0.6 {
        progress = false;
        let mut cands: Vec<Plan> = sim_shrinks(&best);
        for b in props::shrink(&best.body) {
            cands.push(Plan { body: b, ..best.clone() });
        }
        for c in cands {
            if t0.elapsed().as_secs_f64() > budget * 0.6 {
                break;
            }
            let o = run_plan(&c);
            if o.class() == Some(class.as_str()) {
                best = c;
                best_out = o;
                progress = true;
                break;
            }
        }
    }
    // 2. The schedule, as an explicit list of decisions.
    if best_out.decisions.is_empty() {
        return (best, best_out);
    }
    let mut cur = best.clone();
    cur.sim.schedule = Some(best_out.decisions.clone());
    let o = run_plan(&cur);
    if o.class() != Some(class.as_str()) {
        return (best, best_out);
    }
    let mut cur_out = o;
    let try_list = |list: Vec<(u32, u32)>, cur: &mut Plan, cur_out: &mut RunOut| -> bool {
        let mut c = cur.clone();
        c.sim.schedule = Some(list);
        let o = run_plan(&c);
        if o.class() == Some(class.as_str()) {
            *cur = c;
            *cur_out = o;
            true
        } else {
            false
        }
    };
    // Everything default?
    if try_list(vec![], &mut cur, &mut cur_out) {
        return (cur, cur_out);
    }
    // Shortest prefix (binary search), then zero ever smaller chunks.
    let list = cur.sim.schedule.clone().unwrap();
    let (mut lo, mut hi) = (0usize, list.len());
    while lo + 1 < hi && t0.elapsed().as_secs_f64() < budget {
        let mid = (lo + hi) / 2;
        if try_list(list[..mid].to_vec(), &mut cur, &mut cur_out) {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    let mut chunk = (cur.sim.schedule.as_ref().unwrap().len() / 2).max(1);
    while t0.elapsed().as_secs_f64() < budget {
        let len = cur.sim.schedule.as_ref().unwrap().len();
        let mut at = 0;
        while at < len && t0.elapsed().as_secs_f64() < budget {
            let mut l = cur.sim.schedule.clone().unwrap();
            if at >= l.len() {
                break;
            }
            let end = (at + chunk).min(l.len());
            let mut changed = false;
            for d in &mut l[at..end] {
                if *d != (0, 0) {
                    *d = (0, 0);
                    changed = true;
                }
            }
            if changed {
                while l.last() == Some(&(0, 0)) {
                    l.pop();
                }
                try_list(l, &mut cur, &mut cur_out);
            }
            at += chunk;
        }
        if chunk == 1 {
            break;
        }
        chunk /= 2;
    }
    (cur, cur_out)
}
