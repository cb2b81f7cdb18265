mod a;
mod api;
mod asmgen;
mod cli;
mod core;
mod cost;
mod cpu;
mod dict;
mod e;
mod link;
mod m;
mod m8;
mod macho;
mod o;
mod objgen;
mod run;
mod spec;
mod util;
mod worker;
mod x86;

mod registry;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let checks = registry::checks();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("shard") => core::shard_main(&checks, &a[2..]),
        Some("asm-worker") => worker::worker_main(),
        Some("check") => {
            let verif = std::path::PathBuf::from(std::env::var("MON_VERIF").unwrap_or_else(|_| "/verif".into()));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            core::check_main(&checks, &a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"), seed, &verif)
        }
        Some("dict") => {
            print!("{}", dict::dump());
            0
        }
        Some("list") => {
            for c in &checks {
                println!("{} {}", c.id, c.level);
            }
            0
        }
        _ => {
            eprintln!("usage: mon check ID quick|thorough | list");
            2
        }
    };
    std::process::exit(code);
}
