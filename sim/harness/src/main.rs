//! `simcheck`: deterministic simulation of rexecutor with fault injection.
simrt::install_overrides!();

#[no_mangle]
pub fn rexecutor_sim_yield() {
    simrt::yield_point();
}

mod driver;
mod gen;
mod model;
mod oracle;
mod pg;
mod pgsim;
mod run;
mod scen;
mod world;

pub const REAL: &[&str] = &[
    "rexecutor: Rexecutor, JobRunner, Executor, JobBuilder, uniqueness, backoff, timeout, cron, pruner, in-memory backend (compiled from /repo)",
    "tokio runtime, timers, synchronisation (only the choice of the next task, select! and the clock are replaced)",
    "rexecutor-sqlx: RexecutorPgBackend, stream, queries, migrations; sqlx: pool, Postgres driver, listener, wire protocol (runs on the Postgres backend)",
    "std locks (blocking is turned into a scheduling decision)",
];
pub const STUBS: &[&str] = &[
    "operating system clock, randomness, thread scheduling (simulated)",
    "user executors (scripted by the scenario)",
    "PostgreSQL server: an in-process simulation speaking the wire protocol (READ COMMITTED with row locks, SKIP LOCKED, advisory locks, LISTEN/NOTIFY), its schema executed from the repository's migrations",
    "TCP: in-process connections with delays, partitions and resets",
];
pub const ASSUMPTIONS: &[&str] = &[
    "Threads switch only at lock operations and at the yield points compiled in with cfg(rexecutor_sim); memory is sequentially consistent.",
    "The simulated PostgreSQL server executes the SQL the backend sends as PostgreSQL documents it; statements it does not know discard the run (counted as discarded_unsupported_sql).",
    "Search is by seeded sampling: schedules and faults outside the drawn ones are not excluded.",
];

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    driver::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    let seed: u64 = opt(&args, "--seed").or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1);
    let workers = opt(&args, "--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let code = match args.first().map(|s| s.as_str()) {
        Some(cmd @ ("check" | "worker")) => {
            let prop = opt(&args, "--property").expect("--property");
            let tier = opt(&args, "--tier").or(env("VERIF_TIER")).unwrap_or("quick".into());
            let root = opt(&args, "--root").unwrap_or("/verif".into());
            let a = driver::Args {
                secs: opt(&args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { 35 }),
                max_runs: opt(&args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX),
                workers,
                out: opt(&args, "--out").unwrap_or(format!("{root}/evidence/{prop}.json")),
                replays: opt(&args, "--replays").unwrap_or(format!("{root}/replays")),
                known: opt(&args, "--known").unwrap_or(format!("{root}/known_findings.txt")),
                prop,
                tier,
                seed,
            };
            if cmd == "worker" {
                let num = |n: &str| opt(&args, n).and_then(|s| s.parse().ok()).expect("number");
                driver::worker(&a, num("--index"), num("--of"))
            } else {
                driver::check(a)
            }
        }
        Some("replay") => driver::replay(&args[1], args.iter().any(|a| a == "--dump")),
        Some("determinism") => {
            let props: Vec<String> = match opt(&args, "--property") {
                Some(p) => vec![p],
                None => gen::PROPS.iter().map(|s| s.to_string()).collect(),
            };
            driver::determinism(&props, seed, opt(&args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(10))
        }
        // one scenario, given by its own seed
        Some("run") => {
            let prop = opt(&args, "--property").expect("--property");
            let sc = gen::generate(&prop, seed, args.iter().any(|a| a == "--deep"));
            if args.iter().any(|a| a == "--scenario") {
                println!("{}", serde_json::to_string_pretty(&sc).unwrap());
            }
            let o = driver::run_once(&sc, None, true);
            print!("{}", o.dump.unwrap_or_default());
            if args.iter().any(|a| a == "--trace") {
                for l in o.log {
                    println!("{l}");
                }
            }
            for v in &o.verdict.viol {
                println!("{}: {}", v.class, v.msg);
            }
            println!("{:016x} steps {} virtual {} ms, stats {:?}, faults {:?}", o.hist_hash, o.report.steps, o.report.virtual_ns / 1_000_000, o.verdict.stats, o.faults);
            !o.verdict.viol.is_empty() as i32
        }
        _ => {
            eprintln!("usage: simcheck check|replay|determinism|run");
            2
        }
    };
    std::process::exit(code);
}
