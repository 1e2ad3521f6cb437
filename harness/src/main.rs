//! harness check <ID> | harness replay <file> | harness list
mod meter;
mod rt;
mod runner;
mod conn;
mod gen;
mod rpc;
mod client;
mod client_props;
mod server;
mod server_props;
mod limits_props;
mod e2e_props;
mod codec_props;
mod conn_props;
mod crash;
mod endure_props;
mod lifecycle_props;

use std::time::Instant;

use runner::{Fail, Property, Report, Tier};
use serde_json::json;

#[global_allocator]
static METER: meter::Meter = meter::Meter;

fn properties() -> Vec<Property> {
    let mut v = vec![];
    v.extend(conn_props::properties());
    v.extend(codec_props::properties());
    v.extend(client_props::properties());
    v.extend(server_props::properties());
    v.extend(limits_props::properties());
    v.extend(e2e_props::properties());
    v.extend(endure_props::properties());
    v.extend(lifecycle_props::properties());
    v
}

fn main() {
    runner::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in properties() {
                println!("{}", p.id);
            }
            0
        }
        Some("check") if args.len() == 3 && std::env::var_os(crash::INNER).is_none() => crash::supervise(&args[2]),
        Some("check") if args.len() == 3 => check(&args[2]),
        Some("replay") if args.len() == 3 && std::env::var_os(crash::INNER).is_none() => crash::replay(&args[2]),
        Some("replay") if args.len() == 3 => replay(&args[2]),
        _ => {
            eprintln!("usage: harness check <ID> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}

fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let v: serde_json::Value = serde_json::from_str(&text).expect("replay is json");
    let (id, suite) = (v["property"].as_str().unwrap_or(""), v["suite"].as_str().unwrap_or(""));
    for p in properties().iter().filter(|p| p.id == id) {
        for s in p.suites.iter().filter(|s| s.name() == suite) {
            return match s.replay(&v["case"]) {
                Ok(()) => {
                    println!("replay of {path}: property {id} held");
                    0
                }
                Err(Fail::Harness(e)) => {
                    eprintln!("harness error: {e}");
                    2
                }
                Err(Fail::Violation(m)) | Err(Fail::Stall(m)) => {
                    println!("{m}");
                    println!("VIOLATION property={id} replay={path}");
                    1
                }
            };
        }
    }
    eprintln!("no such property or suite: {id}/{suite}");
    2
}

fn check(id: &str) -> i32 {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let Some(p) = properties().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    runner::start_watchdog();
    if tier == Tier::Quick {
        runner::set_deadline(std::time::Duration::from_secs(400));
    }
    let started = Instant::now();
    let mut report = Report::default();
    for s in &p.suites {
        s.execute(p.id, tier, seed, &mut report);
        if report.failure.is_some() || report.harness_error.is_some() {
            break;
        }
    }
    if let (None, Some(size)) = (&report.failure, meter::any_overrun()) {
        let message = format!("memory: something was written beyond the end of a block of {size} bytes");
        report.failure = Some(runner::Failure { suite: "any".into(), case: json!(null), message });
    }
    let violations = report.failure.is_some() as i64;
    let evidence = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": report.evaluations,
            "distinct_nontrivial": report.distinct_nontrivial,
            "rule": p.rule,
            "samples": report.samples,
            "suites": report.suites,
            "inconclusive": report.inconclusive,
            "exhaustive": false,
        },
        "assumptions": [
            "search over generated cases: absence of violations is evidence for the explored cases, not a proof",
            "tokio, prost, rmp and the kernel's sockets behave as documented",
        ],
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = std::env::var("VERIF_EVIDENCE_DIR").unwrap_or_else(|_| "/verif/evidence".to_string());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        format!("{dir}/{}.json", p.id),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    ) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if let Some(e) = report.harness_error {
        eprintln!("harness error: {e}");
        return 2;
    }
    for (name, s) in &report.suites {
        println!(
            "{id}/{name}: {} cases, {} distinct non-trivial, {:.1}s {}",
            s["evaluations"], s["distinct_nontrivial"], s["wall_s"].as_f64().unwrap_or(0.0), s["labels"]
        );
    }
    if let Some(f) = report.failure {
        let path = runner::write_replay(p.id, &f);
        println!("{id}/{}: {}", f.suite, f.message);
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    println!("{id}: held on {} cases ({} inconclusive), {:.1}s", report.evaluations, report.inconclusive, started.elapsed().as_secs_f64());
    0
}
