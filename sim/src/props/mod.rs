//! The properties: how each one's runs are planned, executed and judged.
use crate::core::{Plan, RunOut};
use crate::prng::Rng;
use serde::{Deserialize, Serialize};
use simrt::{Outcome, SimCfg};

pub type Fin = fn(Outcome) -> !;

pub mod upset;

macro_rules! props {
    ($($id:literal $m:ident $v:ident;)*) => {
        $(pub mod $m;)*
        #[derive(Serialize, Deserialize, Clone, Debug)]
        pub enum Body { $($v($m::B)),* }
        fn make(prop: &str, r: &mut Rng, i: u64) -> Plan {
            match prop {
                $($id => {
                    let (sim, threads, b) = $m::gen(r, i);
                    Plan { prop: prop.into(), sim, threads, body: Body::$v(b) }
                })*
                _ => panic!("unknown property {prop}"),
            }
        }
        pub fn exec(plan: &Plan, sim: SimCfg, out: &mut RunOut, fin: Fin) {
            match &plan.body { $(Body::$v(b) => $m::exec(b, sim, out, fin)),* }
        }
        pub fn shrink(b: &Body) -> Vec<Body> {
            match b { $(Body::$v(b) => $m::shrink(b).into_iter().map(Body::$v).collect()),* }
        }
        pub fn rule(prop: &str) -> &'static str {
            match prop { $($id => $m::RULE,)* _ => "" }
        }
        pub fn stubbed(prop: &str) -> Vec<&'static str> {
            let mut v = vec![
                "operating-system scheduler, futex wait queues and timers (simulated)",
                "wall and monotonic clock (simulated)",
                "random generator behind fastrand (values decided by the simulator)",
            ];
            match prop { $($id => v.extend_from_slice($m::STUBS),)* _ => {} }
            v
        }
        fn runs(prop: &str) -> u64 { match prop { $($id => $m::QUICK_RUNS,)* _ => 0 } }
    };
}

props! {
    "C01" c01 Tiles;
    "C02" c02 Progress;
    "C03" c03 Cadence;
    "C04" c04 Speed;
    "C05" c05 Abort;
    "C06" c06 Loss;
    "C07" c07 Together;
    "C08" c08 Threads;
    "C09" c09 World;
    "C10" c10 Post;
    "C11" c11 Denoise;
    "C12" c12 Load;
    "C13" c13 Model;
    "C14" c14 Finite;
    "C15" c15 Light;
    "C16" c16 Fog;
    "C17" c17 Camera;
    "C18" c18 Aim;
    "C19" c19 Memory;
    "C20" c20 Stall;
}

pub fn plan(prop: &str, seed: u64, i: u64, tier: &str) -> Plan {
    let salt = if tier == "thorough" { 0x7407 } else { 0 };
    let mut r = Rng::new(simrt::mix(seed ^ salt << 32) ^ simrt::mix(i ^ 0x1dea) ^ prop.bytes().fold(0u64, |h, b| h.wrapping_mul(131) ^ b as u64));
    make(prop, &mut r, i)
}

/// (most runs, most seconds)
pub fn budget(prop: &str, tier: &str) -> (u64, f64) {
    if tier == "thorough" {
        (u64::MAX / 2, std::env::var("SIM_THOROUGH_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(600.0))
    } else {
        (runs(prop), 60.0)
    }
}

pub fn real_components(_prop: &str) -> Vec<&'static str> {
    vec!["solstrale (all of it, compiled from /repo's working tree)", "rayon, rayon-core, crossbeam", "std threads, locks, channels, time", "image, tobj, zune-jpeg"]
}

pub fn assumptions(_prop: &str) -> Vec<&'static str> {
    vec![
        "One simulated thread runs at a time: interleavings are sequentially consistent; reorderings only a weak memory model allows are not produced.",
        "Preemption inside dependencies (rayon, std) happens only at their futex, yield and thread calls; inside the crate under test at every basic block, load and store.",
    ]
}

/// Ends every run that left the simulation: anything that panicked off the
/// render threads is a failure of its own.
pub fn no_stray_panics(out: &mut RunOut) {
    let p = crate::core::take_panics();
    if !p.is_empty() {
        out.fail("panic", format!("panicked: {}", p.join(" | ")));
    }
}

/// The common ending of a render that nobody disturbed.
pub fn must_be_ok(out: &mut RunOut, what: &str, end: &crate::render::End) -> bool {
    use crate::render::End;
    match end {
        End::Ok => true,
        End::Err(e) => {
            out.fail("render-error", format!("{what} returned an error: {e}"));
            false
        }
        End::Panic(p) => {
            out.fail("panic", format!("{what} panicked: {p}"));
            false
        }
        End::Hung => {
            out.fail("hang", format!("{what} never returned"));
            false
        }
    }
}
