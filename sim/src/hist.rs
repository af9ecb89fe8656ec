//! What the recorded history of a single undisturbed render says about the
//! moments at which its samples were complete.
use simrt::{ev, ClockCfg};

/// One possible moment as the code under test would read it: (wall, monotonic).
pub type At = (i64, i64);

pub struct Windows {
    /// Possible moments of the start of the render.
    pub start: Vec<At>,
    /// Possible moments of the report after sample k (index k-1).
    pub after: Vec<Vec<At>>,
}

fn seen(c: &ClockCfg, mono: u64, wall: i64) -> At {
    let m = if c.frozen { 1_000_000_000 } else { mono as i64 };
    let m = if c.granularity == 0 { m } else { m.div_euclid(c.granularity as i64) * c.granularity as i64 };
    (wall, m)
}

/// `samples` samples used all random draws of the run; None if they cannot have used equally many.
pub fn windows(c: &ClockCfg, samples: u64) -> Option<Windows> {
    let r = simrt::report();
    if samples == 0 || r.draws == 0 || r.draws % samples != 0 || r.draw_log.len() as u64 != r.draws {
        return None;
    }
    let per = r.draws / samples;
    let mut start = vec![];
    let mut after: Vec<Vec<At>> = vec![vec![]; samples as usize];
    for e in r.events {
        if e.kind != ev::WALL_READ && e.kind != ev::MONO_READ {
            continue;
        }
        if e.draws == 0 {
            start.push(seen(c, e.mono, e.wall));
        } else if e.draws % per == 0 {
            after[(e.draws / per - 1) as usize].push(seen(c, e.mono, e.wall));
        }
    }
    if start.is_empty() {
        return None;
    }
    for k in 0..samples as usize {
        if after[k].is_empty() {
            // not read there: anything between the last draw of this sample and the first of the next
            let a = r.draw_log[(k + 1) * per as usize - 1];
            after[k].push(seen(c, a.0, a.1));
            if let Some(b) = r.draw_log.get((k + 1) * per as usize) {
                after[k].push(seen(c, b.0, b.1));
            } else {
                return None;
            }
        }
    }
    Some(Windows { start, after })
}

/// (smallest, largest) difference b - a over both possible moments, for one clock.
pub fn diff(a: &[At], b: &[At], wall: bool) -> (i64, i64) {
    let g = |x: &At| if wall { x.0 } else { x.1 };
    let (amin, amax) = (a.iter().map(g).min().unwrap(), a.iter().map(g).max().unwrap());
    let (bmin, bmax) = (b.iter().map(g).min().unwrap(), b.iter().map(g).max().unwrap());
    (bmin.saturating_sub(amax), bmax.saturating_sub(amin))
}
