//! What a check actually covered, measured on this run.
use crate::core::RunOut;
use crate::engine::Opt;
use crate::props;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};

pub struct Agg {
    pub runs: u64,
    pub planned: u64,
    pub explore_s: f64,
    pub harness: u64,
    prop: String,
    edges: u64,
    draws: u64,
    switches: u64,
    preemptions: u64,
    sim_ns: u128,
    counts: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    scheds: HashSet<u64>,
    execs: HashSet<u64>,
    nontrivial: u64,
    nontrivial_set: HashSet<u64>,
    guards: HashSet<u16>,
    nguards: u32,
    sample_idx: Vec<u64>,
}

impl Agg {
    pub fn new(opt: &Opt, planned: u64) -> Agg {
        Agg {
            runs: 0,
            planned,
            explore_s: 0.0,
            harness: 0,
            prop: opt.prop.clone(),
            edges: 0,
            draws: 0,
            switches: 0,
            preemptions: 0,
            sim_ns: 0,
            counts: BTreeMap::new(),
            fault_runs: BTreeMap::new(),
            probes: BTreeMap::new(),
            scheds: HashSet::new(),
            execs: HashSet::new(),
            nontrivial: 0,
            nontrivial_set: HashSet::new(),
            guards: HashSet::new(),
            nguards: 0,
            sample_idx: vec![],
        }
    }
    pub fn add(&mut self, i: u64, o: &RunOut) {
        self.runs += 1;
        self.edges += o.edges;
        self.draws += o.draws;
        self.switches += o.switches;
        self.preemptions += o.preemptions;
        self.sim_ns += o.sim_ns as u128;
        if let Value::Object(m) = serde_json::to_value(&o.counts).unwrap() {
            for (k, v) in m {
                let n = v.as_u64().unwrap_or(0);
                *self.counts.entry(k.clone()).or_insert(0) += n;
                if n > 0 {
                    *self.fault_runs.entry(k).or_insert(0) += 1;
                }
            }
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        self.scheds.insert(o.sched_hash);
        self.execs.insert(o.hash);
        if o.probes.get("checked").copied().unwrap_or(0) > 0 {
            self.nontrivial += 1;
            self.nontrivial_set.insert(o.hash);
            if self.sample_idx.len() < 3 {
                self.sample_idx.push(i);
            }
        }
        self.guards.extend(o.guards.iter());
        self.nguards = self.nguards.max(o.nguards);
    }
    pub fn summary(&self) -> String {
        format!(
            "{}: {} runs in {:.1}s ({} with something checked), {} distinct executions, {} distinct schedules, {} preemptions, {:.1}s simulated, {}/{} program locations; probes {:?}",
            self.prop,
            self.runs,
            self.explore_s,
            self.nontrivial,
            self.execs.len(),
            self.scheds.len(),
            self.preemptions,
            self.sim_ns as f64 / 1e9,
            self.guards.len(),
            self.nguards,
            self.probes
        )
    }
    pub fn write(&self, opt: &Opt, violations: u64, wall: f64) {
        let hours = (self.explore_s / 3600.0).max(1e-9);
        let samples: Vec<Value> = self
            .sample_idx
            .iter()
            .map(|&i| {
                let p = props::plan(&opt.prop, opt.seed, i, &opt.tier);
                let mut v = serde_json::to_value(&p).unwrap();
                clip(&mut v);
                json!({"index": i, "plan": v})
            })
            .collect();
        let fault_keys = ["spurious_wakeups", "spawn_failures", "clock_jumps", "io_errors", "io_eintr", "io_early_eof", "io_short_reads", "random_wake_orders", "starved_slices", "timer_jumps", "extreme_draws", "stalls"];
        let faults: BTreeMap<&str, Value> = fault_keys
            .iter()
            .filter(|k| self.counts.get(**k).copied().unwrap_or(0) > 0)
            .map(|k| (*k, json!({"times": self.counts[*k], "runs": self.fault_runs.get(*k).copied().unwrap_or(0)})))
            .collect();
        let ev = json!({
            "property": opt.prop,
            "tier": opt.tier,
            "seed": opt.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.runs,
                "distinct_nontrivial": self.nontrivial_set.len(),
                "rule": format!("{} A run counts as non-trivial when at least one oracle comparison was made in it; two runs are the same when their event hash (every scheduling decision, clock read, thread start and end, fault and report, with its position) is the same.", props::rule(&opt.prop)),
                "samples": samples,
                "planned_runs": self.planned,
                "runs_per_hour": (self.runs as f64 / hours).round(),
                "seeds_per_hour": (self.runs as f64 / hours).round(),
                "simulated_seconds": self.sim_ns as f64 / 1e9,
                "instrumented_steps": self.edges,
                "random_draws": self.draws,
                "scheduling_decisions": self.switches,
                "preemptions": self.preemptions,
                "distinct_schedules": self.scheds.len(),
                "distinct_executions": self.execs.len(),
                "program_locations_reached": self.guards.len(),
                "program_locations_total": self.nguards,
                "faults_injected": faults,
                "simulated_calls": self.counts,
                "oracle_probes": self.probes,
                "harness_errors": self.harness,
                "real_components": props::real_components(&opt.prop),
                "stubbed_components": props::stubbed(&opt.prop),
                "explore_s": self.explore_s
            },
            "assumptions": props::assumptions(&opt.prop),
            "wall_s": wall,
            "violations": violations
        });
        let p = opt.root.join("evidence").join(format!("{}.json", opt.prop));
        std::fs::write(p, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
}

/// Long arrays are cut so that samples stay readable.
fn clip(v: &mut Value) {
    match v {
        Value::Array(a) => {
            if a.len() > 12 {
                let n = a.len();
                a.truncate(12);
                a.push(json!(format!("... {n} in all")));
            }
            a.iter_mut().for_each(clip);
        }
        Value::Object(m) => m.values_mut().for_each(clip),
        Value::String(s) if s.len() > 400 => {
            let mut k = 400;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
            s.push_str("...");
        }
        _ => {}
    }
}
