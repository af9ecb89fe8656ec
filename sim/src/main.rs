//! simcheck: deterministic simulation of solstrale with fault injection.
mod alloc;
mod core;
mod engine;
mod evidence;
mod files;
mod hist;
mod minimise;
mod model;
mod pixels;
mod prng;
mod props;
mod render;
mod scenes;
mod spec;
mod swarm;
mod tiles;

use std::path::PathBuf;

#[global_allocator]
static HEAP: alloc::Counting = alloc::Counting;

/// Scratch files of this check live here; made on first use, removed by the parent.
pub fn scratch_dir() -> PathBuf {
    let base = std::env::var("SIM_SCRATCH").unwrap_or_else(|_| format!("/tmp/simcheck.{}", unsafe { libc::getuid() }));
    let p = PathBuf::from(base);
    let _ = std::fs::create_dir_all(&p);
    p
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = arg(&args, "--prop").expect("--prop");
            let tier = arg(&args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let seed = arg(&args, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            let opt = engine::Opt {
                prop,
                tier,
                seed,
                runs: arg(&args, "--runs").and_then(|s| s.parse().ok()),
                secs: arg(&args, "--secs").and_then(|s| s.parse().ok()),
                workers: arg(&args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                root: PathBuf::from(arg(&args, "--root").unwrap_or_else(|| "/verif".into())),
                keep_going: args.iter().any(|a| a == "--keep-going"),
                hashes: arg(&args, "--hashes"),
                no_min: args.iter().any(|a| a == "--no-min"),
            };
            engine::run(&opt)
        }
        Some("replay") => engine::replay(args.get(2).expect("replay file"), args.iter().any(|a| a == "--verbose")),
        Some("one") => {
            let prop = arg(&args, "--prop").expect("--prop");
            let seed = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let i = arg(&args, "--index").and_then(|s| s.parse().ok()).unwrap_or(0);
            let p = props::plan(&prop, seed, i, "quick");
            if args.iter().any(|a| a == "--plan") {
                println!("{}", serde_json::to_string_pretty(&p).unwrap());
            }
            let mut o = core::run_plan(&p);
            o.decisions.truncate(10);
            o.guards.clear();
            println!("{}", serde_json::to_string_pretty(&o).unwrap());
            0
        }
        _ => {
            eprintln!("usage: simcheck run --prop ID [--tier quick|thorough] [--seed N] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
