mod fam;
mod model;
mod props;
mod run;
use mcbase::{dynp, gram, sched, val};

use run::*;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
    };
    let tier = match opt("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    quiet_panics();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let id = args.get(1).cloned().unwrap_or_default();
    if cmd == "first" {
        // parses as the first thing a new process does
        let (words, bytes) = (args[1].clone(), args[2].clone());
        print!("{}", props::first(&words, &bytes));
        return;
    }
    if cmd == "gentyped" {
        for i in 0..mcbase::typed::TABLES {
            std::fs::write(format!("{}/typed{i}/src/table.rs", args[1]), mcbase::typed::table_source(i)).unwrap();
        }
        return;
    }
    if cmd == "race" {
        let n = |i: usize| args[i].parse::<usize>().unwrap();
        print!("{}", props::race_first(n(1) as u64, n(2) as u64, n(3), n(4), n(5) as u64));
        return;
    }
    let (parts, assumptions) = match props::parts(&id, tier) {
        Some(p) => p,
        None => {
            eprintln!("mc: unknown property {id}");
            std::process::exit(2);
        }
    };
    let parts: &'static [Part] = Box::leak(parts.into_boxed_slice());
    let report = |v: &Violation| {
        println!(
            "part {} ({}) unit {} case {}\n{}",
            v.part, parts[v.part].name, v.unit, v.case, v.what
        );
    };
    match cmd {
        "run" => {
            let t0 = Instant::now();
            let t = run_all(parts, opt("--slots").as_deref());
            let wall = t0.elapsed().as_secs_f64();
            if let Some(f) = opt("--evidence") {
                std::fs::write(f, evidence(&id, tier, &t, wall, &assumptions)).unwrap();
            }
            if let Some(v) = &t.viol {
                report(v);
                if let Some(f) = opt("--out") {
                    std::fs::write(
                        f,
                        format!(
                            "{} {} {} {}\n{}\n",
                            v.part, v.unit, v.case, parts[v.part].name, v.what
                        ),
                    )
                    .unwrap();
                }
                std::process::exit(1);
            }
            println!(
                "mc: {id}: {} executions, {} states, {} transitions, {} accepted, {} rejected, {} skipped, {} distinct outcomes, {wall:.1}s",
                t.executions, t.states, t.transitions, t.accepted, t.rejected, t.skipped, t.outcomes
            );
        }
        "unit" => {
            let part: usize = args[2].parse().unwrap();
            let unit: usize = args[3].parse().unwrap();
            let cx = run_unit(parts, part, unit, opt("--trace").as_deref());
            if let Some(v) = &cx.viol {
                report(v);
                std::process::exit(1);
            }
            println!("mc: unit held ({} cases)", cx.case_no);
        }
        _ => {
            eprintln!("usage: mc run|unit ...");
            std::process::exit(2);
        }
    }
}
