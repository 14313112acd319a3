//! Deterministic simulation of the algebraics library. See ../../DESIGN.md.
mod driver;
mod field;
mod gen;
mod numcheck;
mod oracle;
mod props;
mod text;

use std::time::Duration;

fn main() {
    algsim_rt::rt::install_hooks();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let root = opt("--root").unwrap_or_else(|| "/verif".into());
    let code = match a.first().map(|x| &x[..]) {
        Some("check") => {
            let tier = opt("--tier").unwrap_or_else(|| "quick".into());
            let prop = a.get(1).cloned().unwrap_or_default();
            if !props::PROPS.contains(&&prop[..]) {
                eprintln!("unknown property {prop}");
                std::process::exit(2);
            }
            let cores = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8);
            driver::check(&driver::Opt {
                prop,
                seed: num("--seed", 1),
                runs: num("--runs", 1_000_000_000),
                wall: Duration::from_secs(num("--wall", if tier == "quick" { 90 } else { 600 })),
                workers: num("--workers", cores as u64) as usize,
                tier,
                root,
                evidence: !a.iter().any(|x| x == "--no-evidence"),
                first: num("--first", 0),
            })
        }
        Some("replay") => driver::replay(a.get(1).map_or("", |x| x)),
        Some("determinism") => driver::determinism(a.get(1).map_or("", |x| x), num("--seed", 1), num("--runs", 50)),
        Some("plan") => {
            print!("{}", props::generate(a.get(1).map_or("", |x| x), num("--seed", 1), num("--index", 0), false).to_text());
            0
        }
        _ => {
            eprintln!("usage: algsim check PROP [--tier quick|thorough] [--seed N] | replay FILE | determinism PROP | plan PROP");
            2
        }
    };
    std::process::exit(code);
}
