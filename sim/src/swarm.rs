//! Swarm generation of the parts every plan shares.
use crate::prng::Rng;
use simrt::{At, ClockCfg, Policy, RngMode, SimCfg};

pub fn threads(r: &mut Rng) -> u32 {
    *r.pick(&[1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 8])
}

pub fn policy(r: &mut Rng) -> Policy {
    match r.below(100) {
        0..=9 => Policy::Coop,
        10..=34 => Policy::Random { mean: r.log(8.0, 3000.0) as u32 },
        35..=44 => Policy::RoundRobin { slice: r.log(3.0, 500.0) as u32 },
        45..=59 => Policy::Pct { changes: r.int(1, 12) as u32, horizon: r.log(2000.0, 400_000.0) as u64 },
        60..=69 => Policy::Starve { victim: r.int(0, 9) as u32, mean: r.log(20.0, 2000.0) as u32 },
        70..=82 => Policy::Burst { long: r.log(200.0, 8000.0) as u32, short: r.int(1, 6) as u32, burst: r.int(4, 60) as u32 },
        _ => Policy::Location { salt: r.u64(), bits: r.int(3, 9) as u32 },
    }
}

/// The same value for every draw, so that all samples of a render use equally many.
pub fn constant(r: &mut Rng) -> RngMode {
    loop {
        let c = r.range(0.23, 0.77);
        if (c - 0.5f64).abs() > 0.01 {
            return RngMode::Const { c };
        }
    }
}

/// Clock without steps: any base, resolution and speed.
pub fn calm_clock(r: &mut Rng) -> ClockCfg {
    ClockCfg {
        wall_base: if r.chance(0.8) { r.int(1_500_000_000, 2_000_000_000) * 1_000_000_000 } else { r.int(0, 8_000_000_000) * 1_000_000_000 },
        granularity: 0,
        frozen: false,
        jumps: vec![],
    }
}

pub fn sim(r: &mut Rng) -> SimCfg {
    SimCfg {
        seed: r.u64(),
        cores: 2,
        policy: policy(r),
        schedule: None,
        rng: RngMode::Margin,
        clock: calm_clock(r),
        edge_ns: *r.pick(&[1, 10, 100, 1000, 20_000]),
        spurious: if r.chance(0.4) { r.int(1, 300) as u32 } else { 0 },
        wake_random: r.chance(0.5),
        spawn_fail: vec![],
        io: vec![],
        short_read: 0,
        io_prefix: String::new(),
        max_edges: 400_000_000,
        max_switches: 3_000_000,
        log_draws: false,
    }
}

/// Clock faults: steps, coarse resolution, standstill, odd epochs.
pub fn wild_clock(r: &mut Rng, expected_draws: u64, expected_reads: u64) -> ClockCfg {
    let mut c = calm_clock(r);
    match r.below(6) {
        0 => c.wall_base = r.int(-10, 10) * 1_000_000_000 + r.int(-999, 999),
        1 => c.wall_base = r.int(-3_000_000_000, 0) * 1_000_000_000,
        2 => c.wall_base = r.int(4_000_000_000, 9_000_000_000) * 1_000_000_000,
        _ => {}
    }
    if r.chance(0.35) {
        c.granularity = *r.pick(&[1000, 1_000_000, 15_600_000, 1_000_000_000]);
    }
    if r.chance(0.2) {
        c.frozen = true;
    }
    let n = *r.pick(&[0, 1, 1, 2, 3, 5]);
    for _ in 0..n {
        let at = if r.chance(0.5) { At::Read(r.int(1, expected_reads.max(1) as i64 + 1) as u64) } else { At::Draw(r.int(1, expected_draws.max(1) as i64) as u64) };
        let mag = r.log(1.0, 4.0e17) as i64;
        let d = if r.chance(0.5) { mag } else { -mag };
        c.jumps.push((at, d));
    }
    c
}
