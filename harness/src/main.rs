mod checks;
mod corpus;
mod mon;
mod numbers;

use mon::*;
use std::path::PathBuf;

#[global_allocator]
static ALLOC: Counting = Counting;

fn usage() -> ! {
    eprintln!("dlhnmon run --prop ID --dir DIR [--tier quick|thorough] [--seed N] [--evidence FILE] [--scale F]\n        [--section NAME --case-seed N --idx N]\ndlhnmon probe NAME ...\ndlhnmon list");
    std::process::exit(2)
}

fn num(s: &str) -> u64 {
    let r = match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16),
        None => s.parse(),
    };
    r.unwrap_or_else(|_| usage())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for m in checks::ALL {
                println!("{}", m.prop)
            }
        }
        Some("probe") => {
            // in a thread of a known stack size, as a program would run it
            let a: Vec<String> = args[2..].to_vec();
            let code = checks::probe(&a);
            std::process::exit(code)
        }
        Some("run") => {
            let mut cfg = Cfg {
                prop: String::new(),
                tier: Tier::Quick,
                seed: 1,
                evidence: None,
                dir: PathBuf::new(),
                replay: None,
                workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16),
                scale: 1.0,
                exe: std::env::current_exe().unwrap(),
            };
            let mut rp = Replay { section: String::new(), seed: 0, idx: 0 };
            let mut i = 2;
            while i < args.len() {
                let v = args.get(i + 1).cloned().unwrap_or_else(|| usage());
                match args[i].as_str() {
                    "--prop" => cfg.prop = v,
                    "--tier" => cfg.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
                    "--seed" => cfg.seed = num(&v),
                    "--evidence" => cfg.evidence = Some(PathBuf::from(v)),
                    "--dir" => cfg.dir = PathBuf::from(v),
                    "--scale" => cfg.scale = v.parse().unwrap_or(1.0),
                    "--workers" => cfg.workers = num(&v) as usize,
                    "--section" => rp.section = v,
                    "--case-seed" => rp.seed = num(&v),
                    "--idx" => rp.idx = num(&v),
                    _ => usage(),
                }
                i += 2;
            }
            if !rp.section.is_empty() {
                cfg.replay = Some(rp)
            }
            if cfg.dir.as_os_str().is_empty() {
                usage()
            }
            install_hook();
            let meta = match checks::ALL.iter().find(|m| m.prop == cfg.prop) {
                Some(m) => m,
                None => usage(),
            };
            let run: &'static Run = Box::leak(Box::new(match Run::new(cfg) {
                Ok(r) => r,
                Err(e) => {
                    eprintln!("cannot start: {}", e);
                    std::process::exit(3)
                }
            }));
            run.watchdog();
            (meta.run)(run);
            std::process::exit(run.finish())
        }
        _ => usage(),
    }
}
