//! Make a failing plan small while it keeps failing the same way.

use crate::kernel::{EntFault, EntPat};
use crate::plan::*;
use crate::pool::evaluate;
use crate::world::{Fleet, RunResult, Violation};
use std::time::Instant;

#[derive(Clone)]
pub struct Target {
    pub prop: String,
    pub kind: String,
    /// operation part of the site
    pub op: String,
    pub known: Vec<crate::Known>,
}

pub fn op_of(site: &str) -> String {
    site.split('/').next().unwrap_or("").trim_end_matches("_wire").to_string()
}

impl Target {
    pub fn of(prop: &str, v: &Violation, known: &[crate::Known]) -> Target {
        Target { prop: prop.into(), kind: v.kind.clone(), op: op_of(&v.site), known: known.to_vec() }
    }
    pub fn find<'a>(&self, r: &'a RunResult) -> Option<&'a Violation> {
        r.violations.iter().find(|v| {
            v.props.iter().any(|p| *p == self.prop)
                && v.kind == self.kind
                && op_of(&v.site) == self.op
                && !self.known.iter().any(|k| k.covers(&self.prop, v))
        })
    }
}

pub struct Shrunk {
    pub plan: Plan,
    pub tried: usize,
    pub accepted: usize,
}

fn without(p: &Plan, a: usize, b: usize) -> Plan {
    let mut q = p.clone();
    q.steps.drain(a..b.min(p.steps.len()));
    q
}

fn simpler(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let mut with = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            v.push(q);
        }
    };
    with(&|q| {
        q.sched.width = 1;
        q.sched.slice = 0;
        q.sched.watch = 0;
    });
    with(&|q| q.sched.slice = 0);
    with(&|q| q.sched.watch = 0);
    with(&|q| q.sched.watch *= 2);
    with(&|q| q.sched.width = (q.sched.width / 2).max(1));
    with(&|q| q.sched.limit /= 4);
    with(&|q| q.sched.limit = q.sched.limit * 3 / 4);
    with(&|q| q.sched.limit = q.sched.limit.saturating_sub(1));
    with(&|q| q.sched.mode = 0);
    with(&|q| q.sched.place = 0);
    with(&|q| q.sched.host = 0);
    for b in 0..5 {
        with(&|q| q.sched.host &= !(1 << b));
    }
    with(&|q| q.mirror = false);
    with(&|q| q.rerun = false);
    with(&|q| q.steps.iter_mut().for_each(|s| s.at = 0));
    for i in 0..p.steps.len() {
        match &p.steps[i].op {
            Op::KeyGen { .. } => {
                with(&|q| {
                    if let Op::KeyGen { fault, .. } = &mut q.steps[i].op {
                        *fault = EntFault::default();
                    }
                });
                with(&|q| {
                    if let Op::KeyGen { fault, .. } = &mut q.steps[i].op {
                        fault.os.pop();
                        fault.stall = None;
                        fault.nested = None;
                    }
                });
                with(&|q| {
                    if let Op::KeyGen { disk: Some(d), .. } = &mut q.steps[i].op {
                        *d = DiskFault::None;
                    }
                });
                with(&|q| {
                    if let Op::KeyGen { disk, .. } = &mut q.steps[i].op {
                        *disk = None;
                    }
                });
                with(&|q| {
                    if let Op::KeyGen { ent, .. } = &mut q.steps[i].op {
                        ent.pat = EntPat::Stream;
                    }
                });
            }
            Op::Encap { dels, .. } => {
                let n = dels.len();
                with(&|q| {
                    if let Op::Encap { fault, .. } = &mut q.steps[i].op {
                        *fault = EntFault::default();
                    }
                });
                with(&|q| {
                    if let Op::Encap { ent, .. } = &mut q.steps[i].op {
                        ent.pat = EntPat::Stream;
                    }
                });
                with(&|q| {
                    if let Op::Encap { dels, .. } = &mut q.steps[i].op {
                        dels.clear();
                    }
                });
                with(&|q| {
                    if let Op::Encap { dels, .. } = &mut q.steps[i].op {
                        dels.iter_mut().for_each(|d| d.delay = 0);
                    }
                });
                for k in 0..n {
                    with(&|q| {
                        if let Op::Encap { dels, .. } = &mut q.steps[i].op {
                            dels.remove(k);
                        }
                    });
                    with(&|q| {
                        if let Op::Encap { dels, .. } = &mut q.steps[i].op {
                            dels[k].muts.clear();
                        }
                    });
                    with(&|q| {
                        if let Op::Encap { dels, .. } = &mut q.steps[i].op {
                            dels[k].misroute = None;
                            dels[k].delay = 0;
                        }
                    });
                }
            }
            Op::Migrate { .. } => {
                with(&|q| {
                    if let Op::Migrate { disk, .. } = &mut q.steps[i].op {
                        *disk = DiskFault::None;
                    }
                });
            }
            Op::Marathon { n, .. } => {
                for m in [n / 4, n / 2, n * 3 / 4, n * 7 / 8, n.saturating_sub(1)] {
                    with(&|q| {
                        if let Op::Marathon { n, .. } = &mut q.steps[i].op {
                            *n = m.max(1);
                        }
                    });
                }
            }
            _ => {}
        }
        // lists of alterations: halves, then single ones
        for (k, n) in muts(&mut p.steps[i].op.clone()).iter().map(|m| m.len()).enumerate() {
            let mut cuts = vec![];
            let mut size = n / 2;
            while size > 0 && cuts.len() < 24 {
                cuts.extend((0..n / size).map(|j| (j * size, size)));
                size /= 2;
            }
            for (at, len) in cuts.into_iter().take(24) {
                with(&|q| {
                    if let Some(m) = muts(&mut q.steps[i].op).get_mut(k) {
                        if at + len <= m.len() && m.len() > len {
                            m.drain(at..at + len);
                        }
                    }
                });
            }
        }
    }
    v
}

fn muts(op: &mut Op) -> Vec<&mut Vec<Mut>> {
    match op {
        Op::Encap { dels, .. } => dels.iter_mut().map(|d| &mut d.muts).collect(),
        Op::Hostile { spec: BSpec::Base(_, m), .. }
        | Op::Forge { spec: BSpec::Base(_, m), .. }
        | Op::Key { what: KOp::EqMut(m) | KOp::EkMut(m), .. } => vec![m],
        _ => vec![],
    }
}

pub fn shrink(plan: &Plan, t: &Target, fleet: &Fleet, secs: f64) -> Shrunk {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let (mut tried, mut accepted) = (0, 0);
    let over = || t0.elapsed().as_secs_f64() > secs;
    let mut attempt = |best: &mut Plan, c: Vec<Plan>| -> bool {
        for batch in c.chunks(8) {
            if over() {
                return false;
            }
            tried += batch.len();
            let r = evaluate(batch, fleet);
            if let Some(i) = r.iter().position(|r| r.as_ref().is_some_and(|r| t.find(r).is_some())) {
                *best = batch[i].clone();
                accepted += 1;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // steps
        let mut size = best.steps.len().div_ceil(2).max(1);
        loop {
            let n = best.steps.len();
            let c: Vec<Plan> =
                (0..n.div_ceil(size)).rev().map(|k| without(&best, k * size, (k + 1) * size)).filter(|p| p.steps.len() < n).collect();
            if attempt(&mut best, c) {
                size = size.min(best.steps.len().max(1));
                continue;
            }
            if size == 1 || over() {
                break;
            }
            size = size.div_ceil(2);
        }
        loop {
            let c = simpler(&best);
            if !attempt(&mut best, c) {
                break;
            }
        }
        if best == before || over() {
            break;
        }
    }
    Shrunk { plan: best, tried, accepted }
}
