//! kemsim: deterministic simulation of a fleet of KEM users.  See /verif/DESIGN.md.
mod api;
mod corpus;
mod ffi;
mod foreign;
mod kernel;
mod keccak;
mod model;
mod ops;
mod plan;
mod pool;
mod rng;
mod selftest;
mod shrink;
mod special;
mod world;

use pool::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use world::{Fleet, RunResult, Violation};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    pub kind: String,
    /// prefix of the violation's site
    pub site: String,
    pub what: String,
    #[serde(default)]
    pub fixed: Option<String>,
}
impl Known {
    pub fn covers(&self, prop: &str, v: &Violation) -> bool {
        self.fixed.is_none() && self.property == prop && self.kind == v.kind && v.site.starts_with(&self.site)
    }
}

fn known(root: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{root}/known-findings.jsonl")) else { return vec![] };
    t.lines().filter(|l| l.trim_start().starts_with('{')).filter_map(|l| serde_json::from_str(l).ok()).collect()
}

pub const PROPS: [&str; 16] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C20"];

/// (runs, wall cap in seconds)
fn budget(prop: &str, tier: &str) -> (u64, f64) {
    let quick = match prop {
        "C08" => 2_500,
        "C06" | "C14" => 3_000,
        "C04" | "C07" => 4_000,
        "C13" | "C15" => 8_000,
        _ => 5_000,
    };
    if tier == "thorough" {
        (quick * 40, 700.0)
    } else {
        (quick, 150.0)
    }
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    violation: Violation,
    base_seed: u64,
    run: u64,
    run_seed: u64,
    /// of the minimised run; a replay that reproduces exactly has the same
    log_digest: u64,
    sched_digest: u64,
    simulated_blocks: u64,
    /// on the fleet of unoptimised builds
    #[serde(default)]
    plain: bool,
    minimised: Value,
    plan: plan::Plan,
    trace: Vec<String>,
}

/// Whether the fleet is that of unoptimised builds.
fn plain() -> bool {
    std::env::var("KEMSIM_PLAIN").is_ok()
}

/// The same command on the fleet of unoptimised builds; comes back if that cannot be built.
fn go_plain(root: &str, from: u64) -> String {
    use std::os::unix::process::CommandExt;
    use std::process::{Command, Stdio};
    match Command::new(format!("{root}/tools/build-all.sh")).arg("plain").stdin(Stdio::null()).output() {
        Ok(o) if o.status.success() => {}
        Ok(o) => return String::from_utf8_lossy(&o.stdout).into_owned(),
        Err(e) => return e.to_string(),
    }
    let Ok(me) = std::env::current_exe() else { return "no executable".into() };
    Command::new(me)
        .args(std::env::args().skip(1))
        .env("KEMSIM_PLAIN", "1")
        .env("KEMSIM_FROM", from.to_string())
        .env("KEMSIM_LIBS", format!("{root}/target/plain"))
        .exec()
        .to_string()
}

fn arg(n: usize) -> String {
    std::env::args().nth(n).unwrap_or_default()
}

fn main() {
    let root = std::env::var("KEMSIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let libs = std::env::var("KEMSIM_LIBS").unwrap_or_else(|_| format!("{root}/target"));
    let cmd = arg(1);
    let (fleet, notes) = load_fleet(&libs);
    for n in &notes {
        eprintln!("kemsim: {n}");
    }
    if !fleet.images.iter().any(|i| i.build == ffi::Build::A) && !fleet.images.iter().any(|i| i.build == ffi::Build::B) {
        eprintln!("kemsim: no usable build of the code under test");
        std::process::exit(2);
    }
    let code = match cmd.as_str() {
        "check" => check(&root, &arg(2), &arg(3), &fleet, &notes),
        "replay" => replay(&root, &arg(2), &fleet),
        "run" => one(&arg(2), &arg(3), &fleet),
        "digests" => {
            let n: u64 = arg(3).parse().unwrap_or(50);
            let w: usize = arg(4).parse().unwrap_or(0);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let s = sweep(&fleet, seed, &arg(2), n, 1e9, w, |_| false);
            for (i, (_, r)) in &s.results {
                println!("{} {i} {:016x} {:016x} {} {}", arg(2), r.log_digest, r.sched_digest, r.clock, r.ops);
            }
            for e in &s.errors {
                eprintln!("{e}");
            }
            (!s.errors.is_empty()) as i32
        }
        "selftest" => selftest::run(&fleet),
        _ => {
            eprintln!("usage: kemsim check ID TIER | replay FILE | run ID INDEX | digests ID N WORKERS | selftest");
            2
        }
    };
    std::process::exit(code);
}

fn one(prop: &str, i: &str, fleet: &Fleet) -> i32 {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = fit(plan::generate(prop, run_seed(seed, prop, i.parse().unwrap_or(0))), fleet);
    println!("{}", serde_json::to_string_pretty(&p).unwrap());
    let sh = world::shared_new();
    match run_isolated(&p, fleet, sh, true) {
        Ok(r) => {
            for l in &r.log {
                println!("{l}");
            }
            println!("{:?}\n{:?}", r.counts, r.checks);
            for v in &r.violations {
                println!("VIOLATES {:?} {} at {} (step {}): {}", v.props, v.kind, v.site, v.step, v.detail);
            }
            (!r.violations.is_empty()) as i32
        }
        Err(e) => {
            println!("error: {}", e.0);
            2
        }
    }
}

fn replay(root: &str, path: &str, fleet: &Fleet) -> i32 {
    if let Some(f) = std::fs::read(path).ok().and_then(|b| serde_json::from_slice::<foreign::Foreign>(&b).ok()) {
        let until = std::time::Instant::now() + std::time::Duration::from_secs(1800);
        return match foreign::carry_out(root, &f.foreign, until) {
            Some((x, y)) if x == y => {
                println!("the violation does not occur on this tree");
                0
            }
            Some((expected, outcome)) => {
                println!("exact: {}", expected == f.expected && outcome == f.outcome);
                println!("{}", foreign::difference(&foreign::Foreign { expected, outcome, ..f.clone() }));
                println!("VIOLATION property={} replay={path}", f.property);
                1
            }
            None => 2,
        };
    }
    let r: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    if r.plain && !plain() {
        eprintln!("kemsim: {}", go_plain(root, 0));
        return 2;
    }
    let t = shrink::Target::of(&r.property, &r.violation, &known(root));
    let sh = world::shared_new();
    match run_isolated(&r.plan, fleet, sh, true) {
        Ok(x) => {
            for l in &x.log {
                println!("{l}");
            }
            match t.find(&x) {
                Some(v) => {
                    println!("{} at {} (step {}): {}", v.kind, v.site, v.step, v.detail);
                    println!("exact: {}", x.log_digest == r.log_digest);
                    println!("VIOLATION property={} replay={path}", r.property);
                    1
                }
                None => {
                    println!("the violation does not occur on this tree");
                    0
                }
            }
        }
        Err(e) => {
            eprintln!("{}", e.0);
            2
        }
    }
}

fn check(root: &str, prop: &str, tier: &str, fleet: &Fleet, notes: &[String]) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = known(root);
    let (mut n, mut cap) = budget(prop, tier);
    if let Some(x) = std::env::var("KEMSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        n = x;
    }
    if plain() {
        cap = cap.min(100.0);
    }
    // the other half of the time goes to hosts unlike this one
    let mut foreign_secs = 0.0;
    if tier == "thorough" && matches!(prop, "C07" | "C14") {
        (cap, foreign_secs) = (300.0, 400.0);
    }
    if let Some(x) = std::env::var("KEMSIM_CAP").ok().and_then(|s| s.parse().ok()) {
        cap = x;
    }
    if let Some(x) = std::env::var("KEMSIM_FOREIGN").ok().and_then(|s| s.parse().ok()) {
        foreign_secs = x;
    }
    let mine = |r: &RunResult| -> Option<Violation> {
        r.violations
            .iter()
            .find(|v| v.props.iter().any(|p| p == prop) && !known.iter().any(|k| k.covers(prop, v)))
            .cloned()
    };
    let mut s = sweep(fleet, seed, prop, n, cap, 0, |r| mine(r).is_some());
    let mut found: Option<(u64, u64, Violation)> =
        s.results.iter().find_map(|(i, (seed, r))| mine(r).map(|v| (*i, *seed, v)));

    // Which blocks there are is partly the optimiser's doing: it may turn a mask into a branch and a
    // branch into a mask.  What counts is what the source says, so the search starts over where
    // every block is one of the source's.
    if prop == "C08" && !plain() {
        if let Some((i, rs, v)) = &found {
            eprintln!("note: {} at {} (run {i}, seed {rs}): {}; looking at the unoptimised code", v.kind, v.site, v.detail);
            eprintln!("kemsim: {}", go_plain(root, *i));
        }
    }

    // the same seeds once more: with every source of nondeterminism under the simulator's control,
    // another outcome means the code under test has one of its own
    let mut repeated = 0u64;
    if found.is_none() && s.errors.is_empty() {
        let m = (n / 50).clamp(8, 200);
        let again = sweep(fleet, seed, prop, m, 30.0, 3, |_| false);
        for (i, (rs, r)) in &again.results {
            let Some((_, first)) = s.results.get(i) else { continue };
            repeated += 1;
            if first.log_digest != r.log_digest {
                let v = Violation {
                    props: vec!["C06".into()],
                    kind: "not-repeatable".into(),
                    site: "run".into(),
                    detail: format!("run {i} (seed {rs}) executed twice with identical inputs, entropy and schedule: two different outcomes"),
                    step: -1,
                };
                if prop == "C06" {
                    found = Some((*i, *rs, v));
                    break;
                }
                eprintln!("note: {} (a matter for C06)", v.detail);
            }
        }
        s.wall += again.wall;
    }

    let mut code = 0;
    let mut nviol = 0;
    if !s.errors.is_empty() {
        for e in s.errors.iter().take(5) {
            eprintln!("kemsim: {e}");
        }
        code = 2;
    }
    if let Some((i, rs, v)) = &found {
        nviol = 1;
        code = 1;
        let plan = fit(plan::generate(prop, *rs), fleet);
        let t = shrink::Target::of(prop, v, &known);
        let secs = std::env::var("KEMSIM_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(45.0);
        let stalled = matches!(v.kind.as_str(), "stalled" | "not-repeatable");
        let sh = if stalled {
            shrink::Shrunk { plan: plan.clone(), tried: 0, accepted: 0 }
        } else {
            shrink::shrink(&plan, &t, fleet, secs)
        };
        let shm = world::shared_new();
        let fin = run_isolated(&sh.plan, fleet, shm, true).ok();
        let fv = fin.as_ref().and_then(|r| t.find(r).cloned()).unwrap_or_else(|| v.clone());
        let fin = fin.unwrap_or_default();
        let rp = Replay {
            property: prop.into(),
            violation: fv.clone(),
            base_seed: seed,
            run: *i,
            run_seed: *rs,
            log_digest: fin.log_digest,
            sched_digest: fin.sched_digest,
            simulated_blocks: fin.clock,
            plain: plain(),
            minimised: json!({"steps_before": plan.steps.len(), "steps_after": sh.plan.steps.len(),
                "candidates_run": sh.tried, "reductions": sh.accepted}),
            plan: sh.plan.clone(),
            trace: fin.log.clone(),
        };
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{:016x}.json", rs);
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap());
        println!("{prop}: {} at {} (run {i}, seed {rs}, step {}): {}", fv.kind, fv.site, fv.step, fv.detail);
        println!("minimised from {} to {} steps ({} candidate runs)", plan.steps.len(), sh.plan.steps.len(), sh.tried);
        for l in fin.log.iter().rev().take(12).rev() {
            println!("  {l}");
        }
        println!("VIOLATION property={prop} replay={path}");
    }
    let mut abroad = None;
    if code == 0 && foreign_secs > 0.0 && matches!(prop, "C07" | "C14") {
        let e = foreign::explore(root, prop, seed, foreign_secs);
        for n in &e.notes {
            eprintln!("note: {n}");
        }
        if let Some(f) = &e.found {
            nviol = 1;
            code = 1;
            let f = foreign::shrink(root, f, 150.0);
            let dir = format!("{root}/replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{prop}-foreign-{:016x}.json", f.foreign.seed);
            let _ = std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap());
            println!("{prop}: as {} (machine seed {}), {} {}: {}", f.foreign.host, f.foreign.machine_seed, f.foreign.scheme,
                f.foreign.steps.join(","), foreign::difference(&f));
            println!("VIOLATION property={prop} replay={path}");
        }
        abroad = Some(e.evidence());
    }
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut other: BTreeSet<String> = BTreeSet::new();
    for (_, r) in s.results.values() {
        for v in &r.violations {
            match known.iter().find(|k| v.props.iter().any(|p| p == prop && k.covers(p, v))) {
                Some(k) => *hits.entry(k.what.clone()).or_default() += 1,
                None if !v.props.iter().any(|p| p == prop) => {
                    if other.len() < 12 {
                        other.insert(format!("{:?} {} at {}", v.props, v.kind, v.site));
                    }
                }
                None => {}
            }
        }
    }
    for (w, n) in &hits {
        println!("KNOWN-FINDING: property={prop} {w} (met {n} times)");
    }
    // ...and listed findings this sweep did not happen to meet
    for k in known.iter().filter(|k| k.property == prop && k.fixed.is_none() && !hits.contains_key(&k.what)) {
        eprintln!("note: listed finding not met in this run: {}", k.what);
    }

    evidence(root, prop, tier, seed, &s, n, repeated, nviol, fleet, notes, &hits, &other, abroad);
    if code == 0 {
        println!(
            "{prop}: held on {} simulated runs ({} checks of it) in {:.1} s",
            s.results.len(),
            s.results.values().map(|(_, r)| r.checks.get(prop).copied().unwrap_or(0)).sum::<u64>(),
            s.wall
        );
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    root: &str,
    prop: &str,
    tier: &str,
    seed: u64,
    s: &Sweep,
    planned: u64,
    repeated: u64,
    nviol: u64,
    fleet: &Fleet,
    notes: &[String],
    hits: &BTreeMap<String, u64>,
    other: &BTreeSet<String>,
    abroad: Option<Value>,
) {
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut checks: BTreeMap<String, u64> = BTreeMap::new();
    let (mut clock, mut ops, mut sw) = (0u64, 0u64, 0u64);
    let mut scheds = BTreeSet::new();
    let mut outcomes = BTreeSet::new();
    let mut nontrivial = BTreeSet::new();
    let mut maxp = 0;
    for (_, r) in s.results.values() {
        for (k, v) in &r.counts {
            *counts.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.checks {
            *checks.entry(k.clone()).or_default() += v;
        }
        clock += r.clock;
        ops += r.ops;
        sw += r.switches;
        maxp = maxp.max(r.max_parallel);
        scheds.insert(r.sched_digest);
        outcomes.insert(r.log_digest);
        let faults: u64 = r.counts.iter().filter(|(k, _)| k.starts_with("fault.")).map(|x| x.1).sum();
        if r.checks.get(prop).copied().unwrap_or(0) > 0 && (faults > 0 || r.max_parallel > 1 || matches!(prop, "C08" | "C09")) {
            nontrivial.insert(r.log_digest);
        }
    }
    let n = s.results.len() as f64;
    let faults: BTreeMap<&str, u64> =
        counts.iter().filter_map(|(k, v)| k.strip_prefix("fault.").map(|f| (f, *v))).collect();
    let opsby: BTreeMap<&str, u64> =
        counts.iter().filter_map(|(k, v)| k.strip_prefix("op.").map(|f| (f, *v))).collect();
    let rest: BTreeMap<&String, u64> =
        counts.iter().filter(|(k, _)| !k.starts_with("fault.") && !k.starts_with("op.")).map(|(k, v)| (k, *v)).collect();
    let cov: Vec<Value> = ffi::Build::ALL
        .iter()
        .enumerate()
        .filter_map(|(i, b)| {
            let im = fleet.images.iter().find(|x| x.build == *b)?;
            Some(json!({"build": b.name(), "blocks_executed": s.cov[i].iter().map(|&x| x as u64).sum::<u64>(),
                "blocks_instrumented": im.nguards()}))
        })
        .collect();
    let mut samples = vec![];
    for (i, (rs, r)) in s.results.iter().take(3).map(|(i, x)| (i, x)) {
        let p = fit(plan::generate(prop, *rs), fleet);
        let steps: Vec<String> = p.steps.iter().take(30).map(|s| format!("node{} {}", s.node, s.op.name())).collect();
        samples.push(json!({"run": i, "seed": rs.to_string(), "fleet": p.nodes, "schedule": p.sched, "steps": steps,
            "simulated_blocks": r.clock, "preemptions": r.preempts, "interleaving": format!("{:016x}", r.sched_digest),
            "outcome": format!("{:016x}", r.log_digest), "checks": r.checks}));
    }
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.results.len(),
            "distinct_nontrivial": nontrivial.len(),
            "rule": "one evaluation is one simulated run: a plan (fleet, workload, faults, schedule parameters) drawn from hash(VERIF_SEED, property, run index) and executed under the seeded scheduler in a process of its own; it counts as non-trivial if the property's oracle ran at least once in it and at least one fault was injected or two operations overlapped (for C08 and C09, whose runs vary key, ciphertext and fault point instead, if the oracle ran); distinct by the digest of the whole event log (every operation, output, cost and simulated time)",
            "samples": samples,
            "code_under_test_unoptimised": plain(),
            "oracle_checks_by_property": checks,
            "runs_planned": planned,
            "runs_per_hour_each_with_its_own_seed": (n / s.wall.max(0.001) * 3600.0) as u64,
            "seeds_run_twice_with_equal_outcome": repeated,
            "operations": ops,
            "operations_by_kind": opsby,
            "simulated_time_basic_blocks": clock,
            "faults_injected": faults,
            "task_switches": sw,
            "max_operations_in_flight": maxp,
            "distinct_interleavings": scheds.len(),
            "interleaving_measure": "distinct digests over the sequence of (operation cut, basic block it was cut at, operation resumed)",
            "distinct_outcomes": outcomes.len(),
            "code_reached": cov,
            "other_counts": rest,
            "known_findings_met": hits,
            "violations_of_other_properties_seen": other,
            "real_components": ["ml-kem, x-wing and dhkem from /repo's working tree, in every build of the fleet that compiled, with all their dependencies (sha3, x25519-dalek, elliptic-curve crates, rand_core OsRng, getrandom)"],
            "stub_components": ["threads' scheduling", "clock (counts executed basic blocks)", "the caller's RNG and getrandom(2)", "futex waits, sleeping and yielding", "the host as the code under test would ask it (allocation refused on demand, clocks, environment variables, opening of files)", "network", "disks", "memcmp (early exit, charged to the clock)", "reference peers (own implementation of FIPS 203 and X-Wing draft-04)"],
            "builds_missing": notes,
            "workers": s.workers
        },
        "assumptions": [
            "x25519-dalek and the RustCrypto curve crates compute their group operations correctly (the reference peers use them too)",
            "tasks of one node interleave at basic-block granularity of the instrumented crates; their dependencies run without preemption inside"
        ],
        "wall_s": s.wall,
        "violations": nviol
    });
    let mut ev = ev;
    if let Some(a) = abroad {
        ev["coverage"]["interpreted_hosts"] = a;
    }
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_vec_pretty(&ev).unwrap());
}
