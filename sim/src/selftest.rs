//! The simulator's own machinery, checked against published vectors and against itself.
//!
//! Not a registered check: it says nothing about the code under test, only whether the reference
//! peers compute what the standards say and whether one seed really is one execution.

use crate::corpus;
use crate::kernel::unhex;
use crate::model;
use crate::pool::sweep;
use crate::world::Fleet;
use serde_json::Value;

fn load(p: &str) -> Option<Value> {
    serde_json::from_slice(&std::fs::read(p).ok()?).ok()
}

fn set(v: &Value) -> u32 {
    match v["parameterSet"].as_str() {
        Some("ML-KEM-512") => 0,
        Some("ML-KEM-768") => 1,
        _ => 2,
    }
}

fn bytes(v: &Value, k: &str) -> Vec<u8> {
    unhex(&v[k].as_str().unwrap_or_default().to_lowercase())
}

fn vectors() -> Result<usize, String> {
    let mut n = 0;
    let mut is = |what: &str, a: Vec<u8>, b: Vec<u8>| {
        n += 1;
        if a == b && !a.is_empty() { Ok(()) } else { Err(format!("model disagrees with the published vector: {what}")) }
    };
    let v = load("/repo/ml-kem/tests/key-gen.json").ok_or("no key-gen vectors")?;
    for g in v["testGroups"].as_array().unwrap() {
        for t in g["tests"].as_array().unwrap() {
            let (ek, dk) = model::keygen(model::params(set(g)), &bytes(t, "d"), &bytes(t, "z"));
            is("key generation, dk", dk, bytes(t, "dk"))?;
            is("key generation, ek", ek, bytes(t, "ek"))?;
        }
    }
    let v = load("/repo/ml-kem/tests/encap-decap.json").ok_or("no encap-decap vectors")?;
    for g in v["testGroups"].as_array().unwrap() {
        let p = model::params(set(g));
        for t in g["tests"].as_array().unwrap() {
            if g["function"] == "encapsulation" {
                let (c, k) = model::encaps(p, &bytes(t, "ek"), &bytes(t, "m"));
                is("encapsulation, c", c, bytes(t, "c"))?;
                is("encapsulation, k", k, bytes(t, "k"))?;
            } else {
                let (k, _) = model::decaps(p, &bytes(g, "dk"), &bytes(t, "c"));
                is("decapsulation", k, bytes(t, "k"))?;
            }
        }
    }
    let v = load("/repo/x-wing/src/test-vectors.json").ok_or("no X-Wing vectors")?;
    for t in v.as_array().unwrap() {
        let sk = bytes(t, "sk");
        is("X-Wing pk", model::xw_public(&sk), bytes(t, "pk"))?;
        let (ct, ss) = model::xw_encaps(&bytes(t, "pk"), &bytes(t, "eseed"));
        is("X-Wing ct", ct.clone(), bytes(t, "ct"))?;
        is("X-Wing ss", ss, bytes(t, "ss"))?;
        is("X-Wing decapsulation", model::xw_decaps(&sk, &ct), bytes(t, "ss"))?;
    }
    Ok(n)
}

/// The same seeds on one worker and on many, twice: equal event logs and interleavings.
fn repeatable(f: &Fleet) -> Result<usize, String> {
    let mut n = 0;
    for p in crate::PROPS {
        let runs: Vec<_> = [1usize, 5, 8].iter().map(|&w| sweep(f, 11, p, 24, 600.0, w, |_| false)).collect();
        if runs[0].results.len() != 24 {
            return Err(format!("{p}: {} runs of 24 finished", runs[0].results.len()));
        }
        for (i, (_, r)) in &runs[0].results {
            for o in &runs[1..] {
                let Some((_, q)) = o.results.get(i) else { return Err(format!("{p}: run {i} is missing")) };
                n += 1;
                if q.log_digest != r.log_digest || q.sched_digest != r.sched_digest || q.clock != r.clock {
                    return Err(format!("{p}: run {i} is not repeatable"));
                }
            }
        }
    }
    Ok(n)
}

/// Every seed of the corpus is as extreme as it claims to be.
fn extremes() -> Result<usize, String> {
    let is = |rho: &[u8], what: &str| {
        let (used, run) = corpus::extremity(rho);
        if (426..540).contains(&used) && run < 9 { Err(format!("corpus: {what} takes {used} bytes, longest run {run}")) } else { Ok(()) }
    };
    for r in corpus::RHO {
        is(&unhex(r), r)?;
    }
    for (k, d) in corpus::SEEDS {
        let (s, d) = (unhex(d), *k);
        let rho = match d {
            0 => model::xw_public(&s)[1152..1184].to_vec(),
            k => {
                let p = [model::P512, model::P768, model::P1024][k - 2];
                let (ek, _) = model::keygen(p, &s, &[0; 32]);
                ek[384 * k..].to_vec()
            }
        };
        is(&rho, "a key generation seed")?;
    }
    // aimed points give secrets with repeated bytes where random ones have few
    let mut runs = 0;
    for s in 4..=8 {
        for i in 0..20u64 {
            let ent = crate::kernel::EntSpec::stream(i).bytes(66 * 1500);
            let (sk, _, _) = model::dh_keygen(s, &ent).ok_or("no key")?;
            let p = model::dh_aim(s, &sk, i).ok_or(format!("aimed point: none found in scheme {s}"))?;
            let ss = model::dh(s, &sk, &p).ok_or("aimed point: invalid")?;
            runs += ss.windows(2).any(|w| w[0] == w[1]) as usize;
        }
    }
    if runs < 60 {
        return Err(format!("aimed points: only {runs} of 100 hit"));
    }
    Ok(corpus::RHO.len() + corpus::SEEDS.len() + 100)
}

pub fn run(f: &Fleet) -> i32 {
    let mut bad = 0;
    for (what, r) in [("published vectors", vectors()), ("extreme seeds", extremes()), ("repeated runs", repeatable(f))] {
        match r {
            Ok(n) => println!("selftest: {what}: {n} comparisons agree"),
            Err(e) => {
                println!("selftest: {what}: {e}");
                bad = 1;
            }
        }
    }
    bad
}
