//! Deterministic simulation of fluffy_tribble.

mod check;
mod env;
mod frame;
mod gen;
mod judge;
mod minimise;
mod ops;
mod oracle_build;
mod oracle_diff;
mod oracle_mesh;
mod oracle_motion;
mod oracle_pose;
mod oracle_reg;
mod oracle_sleep;
mod phys;
mod replay;
mod rng;
mod runner;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") if args.len() >= 2 => {
            let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            runner::check(&args[1], &tier)
        }
        Some("replay") if args.len() == 2 => runner::replay(&args[1]),
        Some("trace") if args.len() == 2 => runner::trace(&args[1]),
        Some("show") if args.len() == 3 => runner::show(&args[1], args[2].parse().expect("seed")),
        Some("worker") => { runner::worker(&args[1..]); 0 }
        Some("judge1") => { runner::judge1(&args[1..]); 0 }
        Some("shrink") => { runner::shrink(&args[1..]); 0 }
        _ => { eprintln!("usage: sim check <property> [quick|thorough] | replay <file> | show <property> <seed>"); 2 }
    };
    std::process::exit(code);
}
