mod desc;
mod gens;
mod json;
mod ops;
mod rng;
mod run;
mod text;

use json::J;
use std::time::{Duration, Instant};

fn main() {
    // runaway allocations must not take the machine down
    unsafe {
        let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    let args = std::env::args().collect::<Vec<_>>();
    let run = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || real_main(args))
        .unwrap();
    if run.join().is_err() {
        std::process::exit(70);
    }
}

fn ndjson(path: &str) -> Vec<J> {
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(J::parse)
        .collect()
}

fn real_main(args: Vec<String>) {
    match args[1].as_str() {
        // run PROP SEED EVENTS SECONDS OUT [TREES [HISTORIES]]
        "run" => {
            let seed: u64 = args[3].parse().unwrap();
            let total: usize = args[4].parse().unwrap();
            let secs: u64 = args[5].parse().unwrap();
            let mut log = run::Log::new(&args[6], total);
            log.stop_at = Some(Instant::now() + Duration::from_secs(secs));
            let mut g = gens::Gen {
                r: rng::Rng::new(seed),
                trees: args.get(7).map(|p| ndjson(p)).unwrap_or_default().iter().map(desc::Desc::from_json).collect(),
                hist: args.get(8).map(|p| ndjson(p)).unwrap_or_default(),
                thorough: total > 100_000,
                drawn: 0,
                // the queries about pairs of nodes grow with the square
                giant: if ["C21", "C23"].contains(&args[2].as_str()) { 100 } else { 270 },
            };
            let _ = g.thorough;
            g.run(&args[2], &mut log, total);
            println!("{}", log.close().text());
        }
        // replay PLANS OUT
        "replay" => {
            let mut log = run::Log::new(&args[3], 1 << 40);
            for c in ndjson(&args[2]) {
                let ops = c
                    .get("ops")
                    .arr()
                    .iter()
                    .map(|q| (q.at(0).str().to_string(), q.at(1).clone()))
                    .collect::<Vec<run::Op>>();
                if c.get("kind").str() == "star" {
                    log.star(c.get("plan"), |_| ops);
                } else {
                    log.chain(c.get("plan"), |_, i| ops.get(i).cloned());
                }
            }
            println!("{}", log.close().text());
        }
        // deep FORMAT DEPTH OPEN, on a stack as any other thread has it
        "deep" => {
            let n = |i: usize| args[i].parse::<usize>().unwrap();
            let (f, d, o) = (args[2].clone(), n(3), n(4));
            let said = std::thread::spawn(move || ops::deep(&f, d, o)).join().expect("reader failed");
            println!("{}", said);
        }
        x => panic!("unknown command {}", x),
    }
}
