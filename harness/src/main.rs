//! `orchard-mon <PROPERTY> [--tier quick|thorough] [--seed N] [--evidence DIR] [--replay FILE]`

mod checks;
mod model;
mod mon;
mod world;

use mon::{Ctx, Tier};
use std::time::Duration;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if matches!(args.get(1).map(|s| s.as_str()), Some("--race") | Some("--life")) {
        return checks::misc::child(&args);
    }
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let id = match args.get(1) {
        Some(id) => id.clone(),
        None => {
            eprintln!("usage: orchard-mon <PROPERTY> [--tier T] [--seed N] [--evidence DIR] [--replay FILE]");
            std::process::exit(2);
        }
    };
    let replay = opt("--replay").map(|f| {
        let v: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay json");
        (
            v["workload"].as_str().unwrap().to_string(),
            v["case"].as_u64().unwrap(),
            v["seed"].as_u64().unwrap(),
            v["tier"].as_str().unwrap().to_string(),
        )
    });
    let tier_s = replay
        .as_ref()
        .map(|r| r.3.clone())
        .or_else(|| opt("--tier"))
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let tier = if tier_s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed = replay
        .as_ref()
        .map(|r| r.2)
        .or_else(|| opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()))
        .unwrap_or(1);
    let evidence = opt("--evidence").unwrap_or_else(|| "/verif/evidence".into());
    let budget = opt("--budget")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 600 } else { 3000 });

    mon::install_panic_monitor();
    let ctx = Ctx::new(&id, tier, seed, Duration::from_secs(budget), replay.map(|r| (r.0, r.1)));
    match checks::find(&id) {
        Some(check) => {
            check(&ctx);
            std::process::exit(ctx.finish(&evidence));
        }
        None => {
            eprintln!("no check for property {}", id);
            std::process::exit(2);
        }
    }
}
