//! Deterministic simulation of vinezombie. See /verif/DESIGN.md.
#![allow(clippy::type_complexity, clippy::large_enum_variant)]
mod alloc;
mod cl;
mod clock;
mod core;
mod hand;
mod irc;
mod json;
mod net;
mod props;
mod runner;
mod sock;
mod srv;

#[global_allocator]
static GLOBAL: alloc::Guard = alloc::Guard;

use crate::core::Mode;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    runner::install_hook();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(3)
    });
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = args
                .get(2)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            let verif = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
            runner::check(find(&args[1]), &tier, base, &verif)
        }
        Some("worker") => runner::worker(find(&args[1]), &args[2..]),
        Some("replay") => runner::replay(props, &args[1]),
        // Run one seed with its choices mirrored into a file.
        Some("mirror") => {
            let m = runner::map_mirror(&args[3]);
            let seed = args[2].parse().unwrap();
            runner::exec(find(&args[1]), Mode::Rng(seed), seed, false, Some(m));
            0
        }
        Some("choices") => {
            let c = std::fs::read_to_string(&args[3]).unwrap();
            let c = c.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let seed = args[2].parse().unwrap();
            runner::exec(find(&args[1]), Mode::Replay(c, 0), seed, false, None);
            0
        }
        // Run one seed by index and print its trace.
        Some("show") => {
            let base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let p = find(&args[1]);
            let seed = runner::seed_for(base, p.id, args[2].parse().unwrap());
            let o = runner::exec(p, Mode::Rng(seed), seed, true, None);
            for l in o.run.trace.iter().flatten() {
                println!("{l}");
            }
            println!("faults {:?}\nprobes {:?}\nchecked {}\nviol {:?}\nharness {:?}", o.run.faults, o.run.probes, o.run.checked, o.viol, o.harness);
            0
        }
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vzsim check ID [quick|thorough] | replay FILE | show ID INDEX | list");
            3
        }
    };
    std::process::exit(code);
}
