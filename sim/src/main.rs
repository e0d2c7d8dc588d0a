#![allow(dead_code)]
//! Deterministic simulation of programs that use householder.

mod objs;
mod plan;
mod runner;
mod sc;
mod store;
mod scen;

pub use scen::SCENS;

#[cfg(debug_assertions)]
pub const PROFILE: &str = "chk";
#[cfg(not(debug_assertions))]
pub const PROFILE: &str = "rel";

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    simrt::arena::init();
    unsafe { simrt::report::PAGE = simrt::report::map_page() };
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |k: &str, d: u64| arg(&a, k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let prop = arg(&a, "--prop").unwrap_or_default();
    match a.first().map(|s| s.as_str()) {
        Some("search") => {
            let j = runner::Job {
                prop,
                seed: n("--seed", 1),
                runs: n("--runs", 100),
                workers: n("--workers", 4),
                secs: n("--secs", 600) as f64,
                out: arg(&a, "--out").unwrap_or("/tmp/hsim.out".into()),
                hashes_out: arg(&a, "--hashes"),
            };
            std::process::exit(runner::search(&j));
        }
        Some("plan") => {
            print!("{}", runner::make(&prop, n("--seed", 1), n("--index", 0)).to_text());
        }
        Some("replay") => {
            let t = std::fs::read_to_string(arg(&a, "--file").expect("--file")).expect("cannot read replay file");
            let p = plan::Plan::parse(&t).unwrap_or_else(|e| {
                eprintln!("bad replay file: {}", e);
                std::process::exit(2)
            });
            let o = runner::run_plan(&p, a.iter().any(|x| x == "-v"));
            for l in &o.log {
                println!("{}", l);
            }
            println!("outcome {} {}", o.kind, o.class);
            println!("detail {}", o.detail);
            println!("steps {} hash {:016x}", o.steps, o.hash);
            for m in &o.meta {
                println!("meta {}", m);
            }
            if a.iter().any(|x| x == "-p") {
                for (k, v) in &o.probes {
                    println!("probe {} {}", k, v);
                }
            }
            std::process::exit(match o.kind.as_str() {
                "ok" => 0,
                "violation" => 1,
                _ => 2,
            });
        }
        Some("minimise") => {
            let p = match arg(&a, "--file") {
                Some(f) => plan::Plan::parse(&std::fs::read_to_string(f).expect("read")).expect("parse"),
                None => runner::make(&prop, n("--seed", 1), n("--index", 0)),
            };
            match runner::minimise(&p, n("--secs", 40) as f64) {
                Some(q) => {
                    std::fs::write(arg(&a, "--out").expect("--out"), q.to_text()).expect("write");
                    println!("{}: {}", q.class, q.detail);
                }
                None => {
                    eprintln!("not reproduced");
                    std::process::exit(2);
                }
            }
        }
        _ => {
            eprintln!("usage: hsim search|plan|replay|minimise ...");
            std::process::exit(2);
        }
    }
}
