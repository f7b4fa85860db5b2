mod circuits;
mod cli;
mod composites;
mod engine;
mod eth;
mod forge;
mod gadgets;
mod groth;
mod native1;
mod native2;
mod progs;
mod reccs;
mod refmath;
mod sol;
mod tape;

use engine::{Prop, RunCfg};

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(native1::props());
    v.extend(native2::props());
    v.extend(circuits::props());
    v.extend(composites::props());
    v.extend(groth::props());
    v.extend(eth::props());
    v.extend(cli::props());
    v
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    let thorough = env("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = env("VERIF_SEED").and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let scale = env("VERIF_SCALE").and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let root = env("VERIF_ROOT").unwrap_or_else(|| "/verif".into());
    let mut id = None;
    let mut only = None;
    let mut rep = None;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--only" => {
                only = args.get(i + 1).cloned();
                i += 1;
            }
            "--replay" => {
                rep = args.get(i + 1).cloned();
                i += 1;
            }
            "--list" => {
                for p in props() {
                    println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
                }
                return;
            }
            "--power" => {
                let a = |k: usize, d: u64| args.get(i + k).and_then(|s| s.parse().ok()).unwrap_or(d);
                circuits::power(&args[i + 1], a(2, 100), a(3, 20) as usize, seed);
                return;
            }
            x => id = Some(x.to_string()),
        }
        i += 1;
    }
    let all = props();
    if let Some(r) = rep {
        std::process::exit(engine::replay(&all, &r, thorough));
    }
    let id = match id {
        Some(i) => i,
        None => {
            eprintln!("usage: fawkes-verif <property> [--only sub] | --replay file | --list");
            std::process::exit(2);
        }
    };
    let p = match all.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no check for property {}", id);
            std::process::exit(2);
        }
    };
    let cfg = RunCfg { seed, thorough, scale, only, root };
    std::process::exit(engine::run_prop(p, &cfg));
}
