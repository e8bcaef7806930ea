//! Seeded search, minimisation, replay, evidence.
use crate::oracle::{evaluate, Verdict};
use crate::run::{execute, RunResult};
use crate::scen::*;
use crate::world::Viol;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::hash::Hasher;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

pub static HARNESS_ERROR: Mutex<Option<String>> = Mutex::new(None);

thread_local! {
    /// Set just before a panic that the scenario asks for.
    pub static PLANNED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Panics are part of the simulated behaviour; those raised by the harness itself are errors of
/// the harness.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if PLANNED.with(|p| p.replace(false)) {
            return;
        }
        if info.payload().downcast_ref::<String>().is_some_and(|m| m == crate::world::EV_LIMIT_MSG) {
            return;
        }
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let ours = loc.contains("harness/src") || loc.contains("simrt/src");
        if std::env::var("SIM_PANICS").is_ok() || ours {
            let m = format!("{info}");
            if ours {
                let mut g = HARNESS_ERROR.lock().unwrap_or_else(|e| e.into_inner());
                if g.is_none() {
                    *g = Some(m.clone());
                }
            }
            if std::env::var("SIM_PANICS").is_ok() {
                eprintln!("{m}");
            }
        }
    }));
}

pub struct Outcome {
    pub verdict: Verdict,
    pub report: simrt::Report,
    pub hist_hash: u64,
    pub events: usize,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub end_t: u64,
    pub dump: Option<String>,
    pub log: Vec<String>,
}
impl Outcome {
    pub fn class(&self) -> Option<String> {
        self.verdict.viol.first().map(|v| v.class.clone())
    }
}

pub const WALL: Duration = Duration::from_secs(60);

fn outcome(sc: &Scenario, r: RunResult, log: Vec<String>, dump: bool) -> Outcome {
    let verdict = evaluate(sc, &r);
    let mut h = simrt::Fx::default();
    let mut text = String::new();
    for (i, e) in r.hist.ev.iter().enumerate() {
        let s = format!("{:5} {:>12.6} n{} {:?}", i, e.t as f64 / 1e6, e.node, e.k);
        h.write(s.as_bytes());
        if dump {
            text.push_str(&s);
            text.push('\n');
        }
    }
    Outcome {
        hist_hash: h.finish(),
        events: r.hist.ev.len(),
        faults: r.hist.faults.clone(),
        probes: r.hist.probes.clone(),
        end_t: r.end_t,
        verdict,
        report: r.report,
        dump: dump.then_some(text),
        log,
    }
}

/// Run a scenario on a fresh thread.
pub fn run_once(sc: &Scenario, tapes: Option<Vec<Vec<u32>>>, dump: bool) -> Outcome {
    let (tx, rx) = mpsc::channel();
    let tx2 = tx.clone();
    let sc2 = sc.clone();
    let sc3 = sc.clone();
    let th = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let (r, log) = execute(&sc2, tapes, dump, move |w, rep| {
                let hist = match w.h.try_lock() {
                    Ok(mut g) => std::mem::take(&mut *g),
                    Err(_) => Default::default(),
                };
                let end_t = rep.virtual_ns;
                let r = RunResult { hist, report: rep, end_t, epoch_ns: 0, panic: None, deadlock: true, finished: false };
                let _ = tx2.send(outcome(&sc3, r, vec![], dump));
            });
            let _ = tx.send(outcome(&sc2, r, log, dump));
        })
        .expect("thread");
    match rx.recv_timeout(WALL) {
        Ok(o) => {
            if !o.report.deadlock {
                let _ = th.join();
            }
            o
        }
        Err(mpsc::RecvTimeoutError::Disconnected) => {
            let p = th.join().err();
            let m = p
                .and_then(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())))
                .unwrap_or_default();
            let mut g = HARNESS_ERROR.lock().unwrap_or_else(|e| e.into_inner());
            if g.is_none() {
                *g = Some(format!("run of seed {} ended abnormally: {m}", sc.seed));
            }
            empty(sc, None)
        }
        Err(mpsc::RecvTimeoutError::Timeout) => empty(sc, Some("hang")),
    }
}

fn empty(sc: &Scenario, class: Option<&str>) -> Outcome {
    Outcome {
        verdict: Verdict {
            viol: class
                .map(|c| Viol { prop: sc.prop.clone(), class: c.into(), msg: format!("a step of the program did not return within {} s", WALL.as_secs()) })
                .into_iter()
                .collect(),
            stats: Default::default(),
        },
        report: Default::default(),
        hist_hash: 0,
        events: 0,
        faults: Default::default(),
        probes: Default::default(),
        end_t: 0,
        dump: None,
        log: vec![],
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    /// Seed of the generated scenario the trace was minimised from.
    pub origin_seed: u64,
    pub scenario: Scenario,
    /// Choices: scheduling, select!, preemption, faults. Missing entries are 0.
    pub tapes: Vec<Vec<u32>>,
    pub history_hash: String,
    pub sched_hash: String,
    pub fault_trace: Vec<String>,
}

fn trim(t: &mut [Vec<u32>]) {
    for k in t.iter_mut() {
        while k.last() == Some(&0) {
            k.pop();
        }
    }
}

/// Reduce scenario and tapes while the same class of violation remains.
fn minimise(sc: &Scenario, tapes: Vec<Vec<u32>>, class: &str, budget: Duration) -> (Scenario, Vec<Vec<u32>>, u64) {
    let end = Instant::now() + budget;
    let mut best = sc.clone();
    let mut bt = tapes;
    let mut tried = 0u64;
    if class == "hang" {
        return (best, bt, 0);
    }
    let check = |s: &Scenario, t: Option<Vec<Vec<u32>>>| -> Option<Vec<Vec<u32>>> {
        let o = run_once(s, t, false);
        (o.class().as_deref() == Some(class)).then_some(o.report.tapes)
    };
    // Try a smaller scenario: with the present tapes, or freshly drawn schedules.
    macro_rules! attempt {
        ($s:expr) => {{
            let s: Scenario = $s;
            let mut ok = false;
            tried += 1;
            if let Some(_) = check(&s, Some(bt.clone())) {
                best = s.clone();
                ok = true;
            } else {
                for k in 0..3u64 {
                    if Instant::now() > end {
                        break;
                    }
                    let mut s2 = s.clone();
                    s2.seed = best.seed.wrapping_add(k.wrapping_mul(0x9E37_79B9));
                    tried += 1;
                    if let Some(t) = check(&s2, None) {
                        best = s2;
                        bt = t;
                        ok = true;
                        break;
                    }
                }
            }
            ok
        }};
    }
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        // whole clients, then single ops
        let mut i = 0;
        while i < best.clients.len() && Instant::now() < end {
            let mut s = best.clone();
            s.clients.remove(i);
            if attempt!(s) {
                progress = true;
            } else {
                i += 1;
            }
        }
        for c in 0..best.clients.len() {
            let mut chunk = best.clients[c].len().div_ceil(2).max(1);
            loop {
                let mut i = 0;
                while i < best.clients[c].len() && Instant::now() < end {
                    let mut s = best.clone();
                    let hi = (i + chunk).min(s.clients[c].len());
                    s.clients[c].drain(i..hi);
                    if attempt!(s) {
                        progress = true;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 || Instant::now() > end {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
        // last nodes
        while best.nodes.len() > 1 && Instant::now() < end {
            let mut s = best.clone();
            s.nodes.pop();
            let n = s.nodes.len() as u32;
            for o in s.clients.iter_mut().flatten() {
                o.node = o.node.min(n - 1);
            }
            for c in s.clients.iter_mut() {
                c.retain(|o| match o.k {
                    OpK::Shutdown { node, .. } | OpK::Crash { node } | OpK::Restart { node } | OpK::Pause { node, .. } | OpK::Reset { node, .. } | OpK::Partition { node, .. } => node < n,
                    _ => true,
                });
            }
            if !attempt!(s) {
                break;
            }
            progress = true;
        }
        for n in 0..best.nodes.len() {
            let mut i = 0;
            while i < best.nodes[n].execs.len() && best.nodes[n].execs.len() > 1 && Instant::now() < end {
                let mut s = best.clone();
                s.nodes[n].execs.remove(i);
                if attempt!(s) {
                    progress = true;
                } else {
                    i += 1;
                }
            }
        }
        if best.faults.any() && Instant::now() < end {
            let mut s = best.clone();
            s.faults = Faults::default();
            if attempt!(s) {
                progress = true;
            }
        }
        if best.run.mt && Instant::now() < end {
            let mut s = best.clone();
            s.run.mt = false;
            if attempt!(s) {
                progress = true;
            }
        }
    }
    // Schedule: replace stretches of choices by the default choice.
    trim(&mut bt);
    for k in (0..bt.len()).rev() {
        let mut chunk = bt[k].len();
        while chunk >= 1 && Instant::now() < end {
            let mut i = 0;
            while i < bt[k].len() && Instant::now() < end {
                let hi = (i + chunk).min(bt[k].len());
                if bt[k][i..hi].iter().any(|v| *v != 0) {
                    let mut t = bt.clone();
                    t[k][i..hi].iter_mut().for_each(|v| *v = 0);
                    trim(&mut t);
                    tried += 1;
                    if check(&best, Some(t.clone())).is_some() {
                        bt = t;
                    }
                }
                i += chunk;
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
    }
    (best, bt, tried)
}

pub fn scenario_seed(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = simrt::Fx::default();
    h.write(prop.as_bytes());
    h.write(&base.to_le_bytes());
    h.write(&i.to_le_bytes());
    let mut r = simrt::Rng::new(h.finish());
    r.next_u64()
}

/// What a worker process reports: one JSON document on its standard output.
#[derive(Default, Serialize, Deserialize)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    scheds: HashSet<u64>,
    hists: HashSet<u64>,
    steps: u64,
    switches: u64,
    preemptions: u64,
    choices: u64,
    nontrivial_choices: u64,
    virtual_ns: u128,
    events: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    stats: BTreeMap<String, u64>,
    policies: BTreeMap<String, u64>,
    mt: u64,
    pg: u64,
    direct: u64,
    multi: u64,
    samples: Vec<serde_json::Value>,
    /// scenario seed, class, history hash, steps
    found: Vec<(u64, String, u64, u64)>,
    known_hits: BTreeMap<String, u64>,
    error: Option<String>,
}

fn add(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) {
    for (k, v) in b {
        *a.entry(k.clone()).or_default() += v;
    }
}

impl Totals {
    fn merge(&mut self, o: Totals) {
        self.runs += o.runs;
        self.scheds.extend(o.scheds);
        self.hists.extend(o.hists);
        self.steps += o.steps;
        self.switches += o.switches;
        self.preemptions += o.preemptions;
        self.choices += o.choices;
        self.nontrivial_choices += o.nontrivial_choices;
        self.virtual_ns += o.virtual_ns;
        self.events += o.events;
        add(&mut self.faults, &o.faults);
        add(&mut self.probes, &o.probes);
        add(&mut self.stats, &o.stats);
        add(&mut self.policies, &o.policies);
        add(&mut self.known_hits, &o.known_hits);
        self.mt += o.mt;
        self.pg += o.pg;
        self.direct += o.direct;
        self.multi += o.multi;
        for s in o.samples {
            if self.samples.len() < 2 {
                self.samples.push(s);
            }
        }
        self.found.extend(o.found);
        if self.error.is_none() {
            self.error = o.error;
        }
        self.nontrivial = self.scheds.len() as u64;
    }
}

pub struct Args {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub secs: u64,
    pub max_runs: u64,
    pub workers: usize,
    pub out: String,
    pub replays: String,
    pub known: String,
}

/// Classes listed as known findings for the property.
fn known_classes(path: &str, prop: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    let mut v = vec![];
    for l in t.lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (Some(p), Some(c), Some(d)) = (it.next(), it.next(), it.next()) else { continue };
        if p == format!("property={prop}") {
            if let Some(c) = c.strip_prefix("class=") {
                v.push((c.to_string(), d.to_string()));
            }
        }
    }
    v
}

/// One worker process: runs one simulation at a time (nothing process-wide is shared between
/// concurrent simulations) over its share of the seeds.
pub fn worker(a: &Args, index: u64, of: u64) -> i32 {
    let t0 = Instant::now();
    let deep = a.tier == "thorough";
    let known = known_classes(&a.known, &a.prop);
    let stop = Arc::new(AtomicBool::new(false));
    {
        let stop = stop.clone();
        std::thread::spawn(move || {
            let mut s = String::new();
            let _ = std::io::stdin().read_line(&mut s);
            stop.store(true, Ordering::Relaxed);
        });
    }
    let deadline = t0 + Duration::from_secs(a.secs);
    let mut t = Totals::default();
    let mut i = index;
    while !stop.load(Ordering::Relaxed) && Instant::now() < deadline && i < a.max_runs {
        let s = scenario_seed(a.seed, &a.prop, i);
        let sc = crate::gen::generate(&a.prop, s, deep);
        let mut o = run_once(&sc, None, false);
        if let Some(m) = HARNESS_ERROR.lock().unwrap_or_else(|e| e.into_inner()).clone() {
            t.error = Some(format!("scenario seed {s} (run {i}): {m}"));
            break;
        }
        o.verdict.viol.retain(|v| {
            if known.iter().any(|(c, _)| *c == v.class) {
                *t.known_hits.entry(v.class.clone()).or_default() += 1;
                false
            } else {
                true
            }
        });
        t.runs += 1;
        if o.report.nontrivial_choices > 0 && o.events > 4 {
            t.scheds.insert(o.report.sched_hash);
        }
        t.hists.insert(o.hist_hash);
        t.steps += o.report.steps;
        t.switches += o.report.fiber_switches;
        t.preemptions += o.report.preemptions;
        t.choices += o.report.choices;
        t.nontrivial_choices += o.report.nontrivial_choices;
        t.virtual_ns += o.report.virtual_ns as u128;
        t.events += o.events as u64;
        add(&mut t.faults, &o.faults);
        add(&mut t.probes, &o.probes);
        add(&mut t.stats, &o.verdict.stats);
        let pol = ["uniform", "mostly-fifo", "mostly-lifo", "pct", "starve"][sc.run.policy as usize % 5];
        *t.policies.entry(pol.into()).or_default() += 1;
        t.mt += sc.run.mt as u64;
        t.pg += (sc.backend == Bk::Pg) as u64;
        t.direct += sc.direct as u64;
        t.multi += (sc.nodes.len() > 1) as u64;
        if t.samples.len() < 2 {
            t.samples.push(serde_json::json!({
                "scenario_seed": s.to_string(), "clients": sc.clients.len(), "ops": sc.n_ops(), "nodes": sc.nodes.len(),
                "backend": format!("{:?}", sc.backend), "direct": sc.direct,
                "events": o.events, "steps": o.report.steps, "virtual_ms": o.report.virtual_ns / 1_000_000,
                "history_hash": format!("{:016x}", o.hist_hash), "first_ops": sc.clients.iter().flatten().take(3).map(|o| format!("{o:?}")).collect::<Vec<_>>(),
            }));
        }
        if let Some(c) = o.class() {
            if c == "hang" && sc.run.preempt > 0 {
                // A lock the simulator does not know blocks it when its holder is preempted. Only
                // what also hangs without preemption is the program's own doing.
                let mut calm = sc.clone();
                calm.run.preempt = 0;
                if run_once(&calm, None, false).class().as_deref() != Some("hang") {
                    *t.stats.entry("discarded_unsimulated_lock".into()).or_default() += 1;
                    i += of;
                    continue;
                }
            }
            t.found.push((s, c, o.hist_hash, o.report.steps));
            break;
        }
        i += of;
    }
    println!("{}", serde_json::to_string(&t).unwrap());
    0
}

pub fn check(a: Args) -> i32 {
    let t0 = Instant::now();
    let deep = a.tier == "thorough";
    let known = known_classes(&a.known, &a.prop);
    let exe = std::env::current_exe().unwrap();
    let mut hs = vec![];
    let mut stdins = vec![];
    let (tx, rx) = mpsc::channel();
    for w in 0..a.workers {
        let mut c = match std::process::Command::new(&exe)
            .args(["worker", "--property", &a.prop, "--tier", &a.tier, "--seed", &a.seed.to_string(), "--secs", &a.secs.to_string()])
            .args(["--runs", &a.max_runs.to_string(), "--known", &a.known, "--index", &w.to_string(), "--of", &a.workers.to_string()])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => {
                eprintln!("harness error: worker: {e}");
                return 3;
            }
        };
        stdins.push(c.stdin.take());
        let tx = tx.clone();
        hs.push(std::thread::spawn(move || {
            let r = c.wait_with_output();
            let t = match r {
                Ok(o) if o.status.success() => serde_json::from_slice::<Totals>(&o.stdout).map_err(|e| format!("worker output: {e}")),
                Ok(o) => Err(format!("worker ended with {}", o.status)),
                Err(e) => Err(format!("worker: {e}")),
            };
            let _ = tx.send(t.unwrap_or_else(|e| Totals { error: Some(e), ..Default::default() }));
        }));
    }
    drop(tx);
    let mut t = Totals::default();
    while let Ok(w) = rx.recv() {
        t.merge(w);
        if !t.found.is_empty() || t.error.is_some() {
            // closing their standard input ends the other workers
            stdins.clear();
        }
    }
    for h in hs {
        let _ = h.join();
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    if let Some(m) = &t.error {
        eprintln!("harness error: {m}");
        return 3;
    }
    let mut unrepro = 0;
    let mut cands = t.found.clone();
    cands.sort_by_key(|c| c.3);
    for (s, class, hash, _) in cands {
        let sc = crate::gen::generate(&a.prop, s, deep);
        // the run must repeat exactly
        let mut o = run_once(&sc, None, false);
        o.verdict.viol.retain(|v| !known.iter().any(|(c, _)| *c == v.class));
        if o.class().as_ref() != Some(&class) || o.hist_hash != hash {
            unrepro += 1;
            eprintln!("seed {s}: violation {class} did not repeat ({:?}, {:x} vs {:x})", o.class(), o.hist_hash, hash);
            continue;
        }
        let budget = Duration::from_secs(if deep { 120 } else { 40 });
        let (msc, mt, tried) = if class == "hang" { (sc.clone(), o.report.tapes.clone(), 0) } else { minimise(&sc, o.report.tapes.clone(), &class, budget) };
        let fin = run_once(&msc, Some(mt.clone()), true);
        let v = fin.verdict.viol.first().cloned().unwrap_or_else(|| o.verdict.viol[0].clone());
        let rep = Replay {
            property: a.prop.clone(),
            class: class.clone(),
            message: v.msg.clone(),
            origin_seed: s,
            tapes: mt,
            history_hash: format!("{:016x}", fin.hist_hash),
            sched_hash: format!("{:016x}", fin.report.sched_hash),
            fault_trace: fin.faults.iter().map(|(k, n)| format!("{k} x{n}")).collect(),
            scenario: msc,
        };
        let _ = std::fs::create_dir_all(&a.replays);
        let path = format!("{}/{}-{}-{:016x}.json", a.replays, a.prop, class, s);
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("write replay");
        // fresh process
        let ok = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &path])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .map(|s| s.code() == Some(1))
            .unwrap_or(false);
        eprintln!("seed {s}: {class}: {}", v.msg);
        eprintln!("  minimised with {tried} runs to {} clients, {} ops, {} nodes, {} non-default choices, {} steps", rep.scenario.clients.len(), rep.scenario.n_ops(), rep.scenario.nodes.len(), rep.tapes.iter().flatten().filter(|v| **v != 0).count(), fin.report.steps);
        if !ok {
            eprintln!("  the replay did not reproduce in a fresh process");
            unrepro += 1;
            continue;
        }
        println!("VIOLATION property={} replay={}", a.prop, path);
        nviol += 1;
        code = 1;
        break;
    }
    if nviol == 0 && unrepro > 0 {
        code = 4;
    }
    for (c, d) in &known {
        let n = t.known_hits.get(c).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (met in {} runs)", a.prop, d, n);
    }
    let fault_total: u64 = t.faults.values().sum();
    let ev = serde_json::json!({
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial,
            "rule": "One evaluation = one simulated run: a scenario (instances, executors, client operations, fault plan) generated from a seed, executed under a schedule drawn from the same seed. Non-trivial: more than 4 recorded events and at least one scheduling/select/preemption/fault decision that differs from the default; distinct: different hash over the whole sequence of decisions and scheduled tasks.",
            "samples": t.samples,
            "runs_per_hour": (t.runs as f64 / search_s * 3600.0) as u64,
            "seeds": t.runs, "seeds_per_hour": (t.runs as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": t.virtual_ns as f64 / 1e9,
            "scheduling_steps": t.steps, "thread_switches": t.switches, "preemptions": t.preemptions,
            "decisions": t.choices, "non_default_decisions": t.nontrivial_choices,
            "distinct_interleavings": t.scheds.len(), "distinct_histories": t.hists.len(),
            "recorded_events": t.events,
            "faults_injected": t.faults, "faults_total": fault_total,
            "oracle_evaluations": t.stats, "probes": t.probes,
            "policies": t.policies, "runs_with_preemptive_threads": t.mt, "runs_on_postgres_backend": t.pg, "runs_on_memory_backend": t.runs - t.pg,
            "runs_driving_the_backend_directly": t.direct, "runs_with_several_instances": t.multi,
            "real_components": crate::REAL, "stubbed_components": crate::STUBS,
        },
        "assumptions": crate::ASSUMPTIONS,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    if let Some(d) = std::path::Path::new(&a.out).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&a.out, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{} {}: {} runs, {} distinct interleavings, {:.0} simulated s, {} faults, {:.1} s, {} violation(s)",
        a.prop, a.tier, t.runs, t.scheds.len(), t.virtual_ns as f64 / 1e9, fault_total, t0.elapsed().as_secs_f64(), nviol
    );
    if code == 0 && t.runs < 20 {
        eprintln!("harness error: only {} runs completed", t.runs);
        return 5;
    }
    code
}

pub fn replay(path: &str, dump: bool) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("replay file");
    let tapes = if r.class == "hang" && r.tapes.is_empty() { None } else { Some(r.tapes.clone()) };
    let o = run_once(&r.scenario, tapes, true);
    if let Some(m) = HARNESS_ERROR.lock().unwrap_or_else(|e| e.into_inner()).clone() {
        eprintln!("harness error: {m}");
        return 3;
    }
    if dump {
        print!("{}", o.dump.clone().unwrap_or_default());
    }
    for v in &o.verdict.viol {
        println!("{}: {}", v.class, v.msg);
    }
    let same = format!("{:016x}", o.hist_hash) == r.history_hash;
    println!("history {:016x} (expected {}), schedule {:016x}", o.hist_hash, r.history_hash, o.report.sched_hash);
    if o.class().as_deref() == Some(&r.class) && same {
        println!("VIOLATION property={} replay={}", r.property, path);
        return 1;
    }
    if !o.verdict.viol.is_empty() {
        println!("a different violation");
        return 6;
    }
    println!("not reproduced");
    0
}

/// Same seed, same execution: compare runs from the seed, again, and from tapes. Prints one line
/// per seed so that processes can be compared as well.
pub fn determinism(props: &[String], base: u64, n: u64) -> i32 {
    let mut bad = 0;
    for p in props {
        for i in 0..n {
            let s = scenario_seed(base, p, i);
            let sc = crate::gen::generate(p, s, false);
            let a = run_once(&sc, None, false);
            let b = run_once(&sc, None, false);
            let c = run_once(&sc, Some(a.report.tapes.clone()), false);
            let k = |o: &Outcome| (o.hist_hash, o.report.sched_hash, o.report.steps, o.report.virtual_ns);
            if k(&a) != k(&b) || k(&a) != k(&c) {
                bad += 1;
                let (x, y) = (run_once(&sc, None, true).dump.unwrap_or_default(), run_once(&sc, None, true).dump.unwrap_or_default());
                for (l, m) in x.lines().zip(y.lines()) {
                    if l != m {
                        let at = l.bytes().zip(m.bytes()).position(|(a, b)| a != b).unwrap_or(0);
                        eprintln!("  {}\n  {}", l.chars().take(60).collect::<String>(), String::from_utf8_lossy(&l.as_bytes()[at.saturating_sub(40)..(at + 60).min(l.len())]));
                        break;
                    }
                }
                eprintln!("nondeterminism: {p} seed {s}: {:?} {:?} {:?}", k(&a), k(&b), k(&c));
            }
            println!("{p} {s} {:016x} {:016x}", a.hist_hash, a.report.sched_hash);
        }
    }
    (bad > 0) as i32
}
