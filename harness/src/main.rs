//! Replays scenarios generated from the TLA+ specifications on the real code, recording traces for TLC to validate.
//! usage: harness <mode> <scenarios.json> <traces.ndjson>

mod vclock;
mod script;
mod sync;
#[cfg(feature = "asy")]
mod asyn;
mod crud;
mod laws;
#[cfg(all(feature = "asy", feature = "hooks"))]
mod measurers;
mod alloc;
#[cfg(feature = "hooks")]
mod sched;
#[cfg(feature = "hooks")]
mod ring;
#[cfg(feature = "hooks")]
mod race;
#[cfg(feature = "hooks")]
mod units;
mod report;
mod tale;

use std::io::Write;
use serde_json::Value;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 { eprintln!("usage: harness <mode> <scenarios.json> <traces.ndjson>"); std::process::exit(3) }
    std::panic::set_hook(Box::new(|info| {
        tale::heard_panic(info);
        if std::env::var("VERIF_VERBOSE").is_ok() { eprintln!("{info}") }
        let harness_bug = info.payload().downcast_ref::<String>().map(|s| s.starts_with("harness:")).unwrap_or(false)
                       || info.payload().downcast_ref::<&str>().map(|s| s.starts_with("harness:")).unwrap_or(false);
        if harness_bug { eprintln!("{info}"); std::process::exit(3) }
    }));
    let scenarios: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("harness: reading scenarios")).expect("harness: parsing scenarios");
    let mut out = std::fs::File::create(&args[3]).expect("harness: creating the output");
    let run: fn(&Value) -> Value = match args[1].as_str() {
        "sync"  => sync::run,
        #[cfg(feature = "asy")]
        "async" => asyn::run,
        "tale" => tale::run,
        "crud"  => crud::run,
        "laws"  => laws::run,
        #[cfg(all(feature = "asy", feature = "hooks"))]
        "measurers" => measurers::run,
        #[cfg(feature = "hooks")]
        "ring" => ring::run,
        "alloc" => alloc::run,
        #[cfg(feature = "hooks")]
        "race" => race::run,
        #[cfg(feature = "hooks")]
        "units" => units::run,
        "report" => report::run,
        "bigwarm" => crud::run_big_warm_up,
        "bigpass" => crud::run_big_passes,
        m => { eprintln!("unknown mode {m}"); std::process::exit(3) }
    };
    for s in &scenarios {
        script::set_payload(s);
        let mut line = run(s).to_string();
        line.push('\n');
        out.write_all(line.as_bytes()).expect("harness: writing");
    }
}
