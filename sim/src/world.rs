//! The fleet: nodes, their disks, the network between them, and the oracles.

use crate::api::{self, *};
use crate::ffi::Build;
use crate::kernel::{self, hex, EntFault, EntPat, EntSpec, Entropy, Event, Kernel};
use crate::model;
use crate::ops::*;
use crate::plan::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::special;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub props: Vec<String>,
    pub kind: String,
    /// where: operation / build / scheme; what known findings match on
    pub site: String,
    pub detail: String,
    pub step: i64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunResult {
    pub violations: Vec<Violation>,
    pub counts: BTreeMap<String, u64>,
    pub clock: u64,
    pub sched_digest: u64,
    pub log_digest: u64,
    pub preempts: u64,
    pub switches: u64,
    pub max_parallel: u64,
    pub ops: u64,
    pub checks: BTreeMap<String, u64>,
    #[serde(default)]
    pub log: Vec<String>,
}

pub struct Fleet {
    pub images: Vec<api::Img>,
}

impl Fleet {
    fn of(&self, b: Build) -> Vec<usize> {
        (0..self.images.len()).filter(|&i| self.images[i].build == b).collect()
    }
    /// the image of a build that only solo executions ever use
    fn pristine(&self, b: Build) -> Option<api::Img> {
        self.of(b).last().map(|&i| self.images[i])
    }
}

struct Node {
    build: Build,
    img: Option<usize>,
    disk: BTreeMap<u32, Vec<u8>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Origin {
    Gen,
    Stored,
    Clone,
}

struct Handle {
    key: usize,
    node: u8,
    img: Option<usize>,
    dk: usize,
    ek: usize,
    inflight: u32,
    dead: bool,
    origin: Origin,
}

#[derive(Clone)]
struct Seen {
    out: Outp,
    origin: Origin,
    build: Build,
}

struct Rec {
    id: u32,
    s: u32,
    ek: Vec<u8>,
    /// stored form, or the scalar for keys that cannot be stored
    dk: Vec<u8>,
    mat: KeyMat,
    build: Build,
    /// false: parsed from damaged bytes
    good: bool,
    honest: BTreeMap<Vec<u8>, (Vec<u8>, Build, u32)>,
    seen: BTreeMap<Vec<u8>, Seen>,
}

#[derive(Clone, Copy, PartialEq)]
enum Slot {
    Pending,
    Ready(usize),
    Failed,
}

struct Msg {
    ct: Vec<u8>,
}

enum Ev {
    Step(usize),
    Deliver { step: usize, key: u32, node: u8, ct: Vec<u8>, tries: u32 },
}

enum Pend {
    KeyGen { step: usize, key: u32, s: u32, draw: Draw, ent: EntSpec, fault: EntFault, disk: Option<DiskFault> },
    Load { step: usize, key: usize, bytes: Vec<u8> },
    Encap { step: usize, msg: u32, key: usize, wire: bool, det: bool, ent: EntSpec, handle: Option<usize> },
    Decap { step: usize, handle: usize, ct: Vec<u8> },
    Hostile { step: usize, op: Sop },
    Key { step: usize, handle: usize, what: KOp, aux: Option<usize>, mutated: Vec<u8> },
    Mirror { step: usize, op: Sop, orig: Sop, first: Outp, build: Build },
    Rerun { step: usize, op: Sop, first: Outp, flip: Option<Sop> },
    Special { step: usize },
}

struct Task {
    node: u8,
    img: usize,
    pend: Pend,
    tags: Vec<&'static str>,
    what: String,
}

/// what a job sends back
pub struct Res {
    pub st: i32,
    pub dk: usize,
    pub ek: usize,
    pub out: Outp,
    pub flags: BTreeMap<&'static str, bool>,
    pub viol: Vec<(Vec<&'static str>, String, String, String)>,
    pub counts: Vec<(String, u64)>,
}
impl Res {
    pub fn new(st: i32) -> Res {
        Res { st, dk: 0, ek: 0, out: Outp::fail(st), flags: BTreeMap::new(), viol: vec![], counts: vec![] }
    }
    fn out(o: Outp) -> Res {
        let mut r = Res::new(o.st);
        r.out = o;
        r
    }
}

pub fn agree(s: u32) -> &'static str {
    match s {
        0..=2 => "C01",
        3 => "C10",
        _ => "C12",
    }
}
pub fn tamper(s: u32) -> &'static str {
    match s {
        0..=2 => "C02",
        3 => "C11",
        _ => "C12",
    }
}
pub fn durable(s: u32) -> &'static str {
    match s {
        0..=2 => "C03",
        3 => "C15",
        _ => "C12",
    }
}

pub struct World<'a> {
    plan: &'a Plan,
    fleet: &'a Fleet,
    k: &'static mut Kernel,
    nodes: Vec<Node>,
    free: BTreeMap<Build, Vec<usize>>,
    keys: Vec<Rec>,
    slots: BTreeMap<u32, Slot>,
    msgs: BTreeMap<u32, Msg>,
    msg_slots: BTreeMap<u32, bool>,
    handles: Vec<Handle>,
    tasks: BTreeMap<u32, Task>,
    events: BinaryHeap<(std::cmp::Reverse<u64>, std::cmp::Reverse<u64>, usize)>,
    evs: Vec<Option<Ev>>,
    seq: u64,
    deferred: Vec<Ev>,
    faulted: BTreeSet<usize>,
    cts: BTreeMap<Vec<u8>, Vec<u8>>,
    pub r: RunResult,
    verbose: bool,
    shared: *mut Shared,
    solo_budget: u32,
}

/// Shared with the parent: where a crash or a stall happened, and what was covered.
#[repr(C)]
pub struct Shared {
    pub mark: kernel::Mark,
    pub cov: [[u8; COVN]; Build::ALL.len()],
}
pub const COVN: usize = 1 << 16;

pub fn shared_new() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            core::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p.cast()
    }
}

fn draw_name(d: Draw) -> &'static str {
    match d {
        Draw::Rng => "rng",
        Draw::Os(_) => "os",
        Draw::Det => "det",
    }
}

impl<'a> World<'a> {
    pub fn new(plan: &'a Plan, fleet: &'a Fleet, shared: *mut Shared, verbose: bool) -> World<'a> {
        let k = Kernel::install(plan.sched.clone());
        let mut free: BTreeMap<Build, Vec<usize>> = BTreeMap::new();
        for b in Build::ALL {
            let mut v = fleet.of(b);
            if v.len() > 1 {
                v.pop(); // pristine
            }
            v.reverse();
            free.insert(b, v);
        }
        let mut w = World {
            plan,
            fleet,
            k,
            nodes: vec![],
            free,
            keys: vec![],
            slots: BTreeMap::new(),
            msgs: BTreeMap::new(),
            msg_slots: BTreeMap::new(),
            handles: vec![],
            tasks: BTreeMap::new(),
            events: BinaryHeap::new(),
            evs: vec![],
            seq: 0,
            deferred: vec![],
            faulted: BTreeSet::new(),
            cts: BTreeMap::new(),
            r: RunResult::default(),
            verbose,
            shared,
            solo_budget: 12,
        };
        if !shared.is_null() {
            w.k.mark = unsafe { &raw mut (*shared).mark };
        }
        for &b in &plan.nodes {
            let img = w.take_image(b);
            w.nodes.push(Node { build: b, img, disk: BTreeMap::new() });
        }
        for (i, st) in plan.steps.iter().enumerate() {
            match &st.op {
                Op::KeyGen { key, .. } => {
                    w.slots.insert(*key, Slot::Pending);
                }
                Op::Encap { msg, .. } => {
                    w.msg_slots.insert(*msg, false);
                }
                _ => {}
            }
            w.at(st.at, Ev::Step(i));
        }
        w
    }

    fn take_image(&mut self, b: Build) -> Option<usize> {
        if b == Build::Ref {
            return None;
        }
        let v = self.free.get_mut(&b)?;
        let i = if v.len() > 1 {
            v.pop()
        } else {
            // the last one is shared by whoever comes late
            v.last().copied()
        };
        if let Some(i) = i {
            self.k.watch(self.fleet.images[i]);
        }
        i
    }

    fn at(&mut self, t: u64, e: Ev) {
        self.evs.push(Some(e));
        self.seq += 1;
        self.events.push((std::cmp::Reverse(t), std::cmp::Reverse(self.seq), self.evs.len() - 1));
    }

    fn count(&mut self, k: &str) {
        *self.r.counts.entry(k.to_string()).or_default() += 1;
    }
    fn checked(&mut self, p: &str) {
        *self.r.checks.entry(p.to_string()).or_default() += 1;
    }

    fn log(&mut self, text: impl FnOnce() -> String, h: u64) {
        self.r.log_digest = mix(self.r.log_digest, h ^ self.k.clock.rotate_left(17));
        if self.verbose {
            let t = text();
            self.r.log.push(format!("t={:<10} {}", self.k.clock, t));
        }
    }

    fn fail(&mut self, props: &[&str], kind: &str, site: String, detail: String, step: usize) {
        let mut p: Vec<String> = props.iter().map(|s| s.to_string()).collect();
        p.sort();
        p.dedup();
        if self.r.violations.len() < 40 {
            self.r.violations.push(Violation { props: p, kind: kind.into(), site, detail, step: step as i64 });
        }
    }

    fn img(&self, node: u8) -> Option<api::Img> {
        self.nodes[node as usize].img.map(|i| self.fleet.images[i])
    }

    // ---------------------------------------------------------------------------------------

    pub fn run(mut self) -> RunResult {
        let mut rounds = 0u64;
        loop {
            rounds += 1;
            if rounds > 3_000_000 {
                self.count("run_cut_short");
                break;
            }
            while let Some(&(std::cmp::Reverse(t), _, i)) = self.events.peek() {
                if t > self.k.clock {
                    break;
                }
                self.events.pop();
                let e = self.evs[i].take().unwrap();
                self.handle(e);
            }
            let next = self.events.peek().map(|e| e.0 .0);
            if !self.k.busy() {
                match next {
                    Some(t) => {
                        self.k.clock = self.k.clock.max(t);
                        continue;
                    }
                    None => {
                        if self.deferred.is_empty() {
                            break;
                        }
                        // whatever they wait for never happened
                        self.r.counts.entry("undeliverable".into()).and_modify(|x| *x += 1).or_insert(1);
                        break;
                    }
                }
            }
            match self.k.step(next) {
                Event::Done(id, d, blocks, ent) => {
                    let t = self.tasks.remove(&id).unwrap();
                    let res = *d.downcast::<Res>().unwrap();
                    self.complete(t, res, blocks, ent);
                    self.retry_deferred();
                }
                Event::Stuck(id, blocks) => {
                    let t = self.tasks.remove(&id).unwrap();
                    let mut tags = t.tags.clone();
                    tags.push("C04");
                    // would it have finished alone?
                    let b = self.nodes[t.node as usize].build;
                    if let Some(op) = self.sop_of(&t.pend) {
                        if self.solo(b, &op).is_some() {
                            tags.push("C07");
                            if self.faulted.contains(&t.img) {
                                tags.push("C05");
                            }
                        }
                    }
                    self.fail(
                        &tags,
                        "no-termination",
                        t.what.clone(),
                        format!("{} executed {} basic blocks without finishing", t.what, blocks),
                        step_of(&t.pend),
                    );
                    break;
                }
                Event::Deadlock(ids) => {
                    let mut what = vec![];
                    let mut step = 0;
                    for i in ids {
                        if let Some(t) = self.tasks.get(&i) {
                            what.push(t.what.clone());
                            step = step_of(&t.pend);
                        }
                    }
                    self.fail(&["C07"], "deadlock", "deadlock".into(), format!("all blocked: {}", what.join("; ")), step);
                    break;
                }
                Event::Aborted(id) => {
                    let t = self.tasks.remove(&id).unwrap();
                    self.fail(
                        &["C20"],
                        "out-of-memory",
                        t.what.clone(),
                        format!("{} ended the process because it was given no memory", t.what),
                        step_of(&t.pend),
                    );
                    break;
                }
                Event::Idle => {
                    if let Some(t) = next {
                        self.k.clock = self.k.clock.max(t);
                    }
                }
                Event::Progress => {}
            }
        }
        self.r.clock = self.k.clock;
        self.r.sched_digest = self.k.stats.digest;
        self.r.preempts = self.k.stats.preempts;
        self.r.switches = self.k.stats.switches;
        self.r.max_parallel = self.k.stats.max_parallel;
        *self.r.counts.entry("fault.preemption".into()).or_default() += self.k.stats.preempts;
        if self.k.stats.cuts > 0 {
            *self.r.counts.entry("fault.preemption_at_watched_block".into()).or_default() += self.k.stats.cuts;
        }
        let a = self.k.stats.asked;
        for (what, n) in [
            ("asked_host.memory", a.memory),
            ("asked_host.time", a.time),
            ("asked_host.environment", a.env),
            ("asked_host.files", a.files),
            ("fault.memory_refused", a.memory_refused),
        ] {
            if n > 0 {
                *self.r.counts.entry(what.into()).or_default() += n;
            }
        }
        for (b, what) in ["no_memory", "clock_skew_and_jumps", "odd_environment", "no_files", "small_stacks"].iter().enumerate() {
            if self.plan.sched.host >> b & 1 == 1 {
                *self.r.counts.entry(format!("armed.{what}")).or_default() += 1;
            }
        }
        if self.k.stats.blocked > 0 {
            *self.r.counts.entry("futex_waits".into()).or_default() += self.k.stats.blocked;
        }
        unsafe {
            if !self.shared.is_null() {
                for i in self.fleet.images.iter() {
                    let Some(b) = Build::ALL.iter().position(|&b| b == i.build) else { continue };
                    let n = i.nguards().min(COVN);
                    let m = &(*i.cov).map;
                    let c = &mut (*self.shared).cov[b];
                    for g in 0..n {
                        c[g] |= m[g] & 1;
                    }
                }
            }
        }
        self.r
    }

    fn retry_deferred(&mut self) {
        if self.deferred.is_empty() {
            return;
        }
        let d = std::mem::take(&mut self.deferred);
        for e in d {
            self.handle(e);
        }
    }

    fn spawn(&mut self, node: u8, label: &str, s: u32, ent: Entropy, tags: Vec<&'static str>, pend: Pend, job: kernel::Job) {
        let img = self.nodes[node as usize].img.expect("real node");
        let build = self.nodes[node as usize].build;
        let what = format!("{label}/{}/{}", build.name(), model::NAMES[s as usize]);
        let l = hash_bytes(img as u64, what.as_bytes());
        self.r.ops += 1;
        *self.r.counts.entry(format!("op.{label}")).or_default() += 1;
        *self.r.counts.entry(format!("build.{}", build.name())).or_default() += 1;
        let text = (step_of(&pend) as i64, format!("{} {}", tags.join(","), what).into_bytes());
        let id = self.k.spawn(l, text, ent, job);
        self.tasks.insert(id, Task { node, img, pend, tags, what });
    }

    fn slot(&self, key: u32) -> Slot {
        self.slots.get(&key).copied().unwrap_or(Slot::Failed)
    }

    fn pick_handle(&self, key: usize, node: u8, salt: u64) -> Option<usize> {
        let id = self.keys[key].id;
        let c: Vec<usize> = (0..self.handles.len())
            .filter(|&h| {
                let x = &self.handles[h];
                !x.dead && x.node == node && self.keys[x.key].id == id
            })
            .collect();
        (!c.is_empty()).then(|| c[(mix(salt, 77) % c.len() as u64) as usize])
    }

    fn base_bytes(&self, s: u32, id: u32, dk: bool) -> Option<Vec<u8>> {
        if let Slot::Ready(k) = self.slot(id) {
            let k = &self.keys[k];
            if k.s == s {
                return Some(if dk { k.dk.clone() } else { k.ek.clone() });
            }
        }
        None
    }

    fn handle(&mut self, e: Ev) {
        match e {
            Ev::Step(i) => self.start(i),
            Ev::Deliver { step, key, node, ct, tries } => {
                let k = match self.slot(key) {
                    Slot::Pending => {
                        self.deferred.push(Ev::Deliver { step, key, node, ct, tries });
                        return;
                    }
                    Slot::Failed => {
                        self.count("net.no_recipient");
                        return;
                    }
                    Slot::Ready(k) => k,
                };
                let salt = hash_bytes(step as u64, &ct[..ct.len().min(16)]) ^ self.seq;
                if self.nodes[node as usize].build == Build::Ref {
                    if self.nodes[node as usize].disk.contains_key(&key) || self.pick_handle(k, node, 0).is_some() {
                        self.ref_decap(step, k, node, ct);
                    } else {
                        self.count("net.no_recipient");
                    }
                    return;
                }
                match self.pick_handle(k, node, salt) {
                    Some(h) => self.decap(step, h, ct),
                    None if tries < 4 => {
                        self.count("net.retransmit");
                        let t = self.k.clock + 150_000;
                        self.at(t, Ev::Deliver { step, key, node, ct, tries: tries + 1 });
                    }
                    None => self.count("net.no_recipient"),
                }
            }
        }
    }

    fn ref_decap(&mut self, step: usize, k: usize, node: u8, ct: Vec<u8>) {
        let key = &self.keys[k];
        let out = match model::std_decap(key.s, &key.dk, &ct) {
            Some(ss) => Outp::ok(vec![ss]),
            None => Outp::fail(REFUSED),
        };
        let id = key.id;
        self.count("op.ref_decap");
        self.judge_decap(step, k, Build::Ref, Origin::Gen, &ct, &out, None);
        self.log(|| format!("ref node {node} decapsulates for key {id}: {}", out.brief()), hash_bytes(1, &out.encode()));
    }

    fn decap(&mut self, step: usize, h: usize, ct: Vec<u8>) {
        let hd = &mut self.handles[h];
        hd.inflight += 1;
        let (node, dk, key) = (hd.node, hd.dk, hd.key);
        let img = self.fleet.images[hd.img.unwrap()];
        let k = &self.keys[key];
        let s = k.s;
        let honest = k.honest.contains_key(&ct);
        // the genuine ciphertext most like this one, to compare with
        let near = if s == 3 {
            let far = |o: &&Vec<u8>| o.iter().zip(&ct).filter(|(x, y)| x != y).count();
            k.honest.keys().filter(|o| **o != ct).min_by_key(far).cloned().unwrap_or_default()
        } else {
            vec![]
        };
        let mut tags = vec![if !k.good {
            "C04"
        } else if honest {
            agree(s)
        } else {
            tamper(s)
        }];
        if self.plan.prop == "C07" {
            tags.push("C07");
        }
        let c = ct.clone();
        self.spawn(
            node,
            "decap",
            s,
            no_entropy(),
            tags,
            Pend::Decap { step, handle: h, ct },
            Box::new(move || {
                let mut rt = OK;
                let mut same = true;
                if s == 3 {
                    let (st, b) = api::ct_roundtrip(img, s, &c, &near);
                    rt = st;
                    same = st != OK || b == c;
                }
                let (st, ss) = api::decap(img, s, dk, &c);
                let mut r = Res::new(st);
                r.flags.insert("ct_same", same);
                r.flags.insert("ct_panic", rt == PANIC);
                if st == OK {
                    r.out = Outp::ok(vec![ss]);
                } else if st == PANIC {
                    r.counts.push((api::panic_text(img), 0));
                }
                Box::new(r)
            }),
        );
    }

    fn start(&mut self, i: usize) {
        let st = self.plan.steps[i].clone();
        let node = st.node;
        if node as usize >= self.nodes.len() {
            return;
        }
        let build = self.nodes[node as usize].build;
        match st.op {
            Op::KeyGen { key, s, src, ent, fault, disk } => {
                if !build_has(build, s) || !matches!(self.slot(key), Slot::Pending) {
                    self.slots.insert(key, Slot::Failed);
                    return;
                }
                if build == Build::Ref {
                    let e = ent.bytes(66 * 1500);
                    match model::std_keygen(s, &e) {
                        Some((dk, ek, n)) => {
                            self.count("op.ref_keygen");
                            let mat = if model::is_dh(s) {
                                KeyMat::Ent(EntSpec { seed: ent.seed, pat: EntPat::Lit(hex(&e[..n])) })
                            } else {
                                KeyMat::Bytes(dk.clone())
                            };
                            let k = self.new_key(key, s, ek, dk.clone(), mat, Build::Ref, true);
                            self.handles.push(Handle {
                                key: k,
                                node,
                                img: None,
                                dk: 0,
                                ek: 0,
                                inflight: 0,
                                dead: false,
                                origin: Origin::Gen,
                            });
                            if let Some(d) = disk {
                                self.write_disk(node, key, &dk, &d);
                            }
                        }
                        None => {
                            self.slots.insert(key, Slot::Failed);
                        }
                    }
                    return;
                }
                let img = self.img(node).unwrap();
                let draw = match src {
                    Src::Rng => Draw::Rng,
                    Src::Os(f) if img.has_os() && s == 3 => Draw::Os(f),
                    Src::Det if img.has_det() && s < 3 => Draw::Det,
                    _ => Draw::Rng,
                };
                let entropy = Entropy::new(ent.clone(), fault.clone());
                let e2 = ent.clone();
                let mut tags = vec![agree(s)];
                if fault.fail.is_some() || !fault.os.is_empty() {
                    tags.push("C05");
                }
                self.spawn(
                    node,
                    "keygen",
                    s,
                    entropy,
                    tags,
                    Pend::KeyGen { step: i, key, s, draw, ent, fault, disk },
                    Box::new(move || {
                        let (st, dk, ek) = grow(img, s, draw, &e2);
                        let mut r = Res::new(st);
                        if st != OK {
                            if st == PANIC {
                                r.counts.push((api::panic_text(img), 0));
                            }
                            return Box::new(r);
                        }
                        // what was drawn so far belongs to key generation
                        let (a, ekb) = ek_bytes(img, s, ek);
                        let (b, dkb) = dk_view(img, s, dk, &ekb);
                        r.dk = dk;
                        r.ek = ek;
                        r.st = if a != OK { a } else { b };
                        r.out = Outp { st: r.st, parts: vec![dkb, ekb] };
                        if r.st != OK {
                            r.out.parts.clear();
                        }
                        Box::new(r)
                    }),
                );
            }
            Op::Crash { build: nb } => self.crash(i, node, nb),
            Op::Recover { key } => self.recover(i, node, key),
            Op::Migrate { key, to, disk } => {
                if matches!(self.slot(key), Slot::Pending) {
                    self.deferred.push(Ev::Step(i));
                    return;
                }
                if to as usize >= self.nodes.len() {
                    return;
                }
                if let Some(b) = self.nodes[node as usize].disk.get(&key).cloned() {
                    self.count("migrations");
                    self.write_disk(to, key, &b, &disk);
                }
            }
            Op::Encap { msg, key, wire, det, ent, fault, dels } => {
                let k = match self.slot(key) {
                    Slot::Pending => {
                        self.deferred.push(Ev::Step(i));
                        return;
                    }
                    Slot::Failed => {
                        self.msg_slots.insert(msg, true);
                        return;
                    }
                    Slot::Ready(k) => k,
                };
                let s = self.keys[k].s;
                if !build_has(build, s) {
                    self.msg_slots.insert(msg, true);
                    return;
                }
                if build == Build::Ref {
                    let ek = self.keys[k].ek.clone();
                    let e = ent.bytes(66 * 1500);
                    self.count("op.ref_encap");
                    if let Some((ct, ss, _)) = model::std_encap(s, &ek, &e) {
                        self.sent(i, msg, k, Build::Ref, ct, ss, &dels);
                    }
                    self.msg_slots.insert(msg, true);
                    return;
                }
                let img = self.img(node).unwrap();
                let h = if wire { None } else { self.pick_handle(k, node, msg as u64) };
                let det = det && img.has_det() && s < 3;
                if let Some(h) = h {
                    self.handles[h].inflight += 1;
                }
                let ekp = h.map(|h| self.handles[h].ek);
                let ekb = self.keys[k].ek.clone();
                let entropy = Entropy::new(ent.clone(), if det { EntFault::default() } else { fault.clone() });
                let e2 = ent.clone();
                let mut tags = vec![agree(s)];
                if fault.fail.is_some() {
                    tags.push("C05");
                }
                self.spawn(
                    node,
                    if h.is_some() { "encap" } else { "encap_wire" },
                    s,
                    entropy,
                    tags,
                    Pend::Encap { step: i, msg, key: k, wire: h.is_none(), det, ent, handle: h },
                    Box::new(move || {
                        let (p, own) = match ekp {
                            Some(p) => (p, false),
                            None => {
                                let (st, p) = ek_load(img, s, &ekb);
                                if st != OK {
                                    return Box::new(Res::new(st));
                                }
                                (p, true)
                            }
                        };
                        let (st, ct, ss) =
                            if det { encap_det(img, s, p, &e2.bytes(32)) } else { encap(img, s, p) };
                        if own {
                            ek_free(img, s, p);
                        }
                        let mut r = Res::new(st);
                        if st == OK {
                            r.out = Outp::ok(vec![ct, ss]);
                        } else if st == PANIC {
                            r.counts.push((api::panic_text(img), 0));
                        }
                        Box::new(r)
                    }),
                );
            }
            Op::Forge { key, spec } => {
                let k = match self.slot(key) {
                    Slot::Pending => {
                        self.deferred.push(Ev::Step(i));
                        return;
                    }
                    Slot::Failed => return,
                    Slot::Ready(k) => k,
                };
                let s = self.keys[k].s;
                if let BSpec::Base(m, _) = &spec {
                    if self.msg_slots.get(m) == Some(&false) {
                        self.deferred.push(Ev::Step(i));
                        return;
                    }
                }
                let base = |m: u32| {
                    if m == OWN {
                        return Some(self.keys[k].ek.clone());
                    }
                    self.msgs.get(&m).map(|m| m.ct.clone())
                };
                let ct = match &spec {
                    BSpec::Aim(seed) => {
                        let Some(sk) = self.dh_secret(k) else { return };
                        let Some(p) = model::dh_aim(if s == 3 { 4 } else { s }, &sk, *seed) else { return };
                        self.count("fault.aimed_ciphertext");
                        if s == 3 {
                            let mut v = match self.msgs.values().find(|m| m.ct.len() == model::ct_len(3)) {
                                Some(m) if seed & 1 == 0 => m.ct.clone(),
                                _ => Rng::new(*seed).bytes(model::ct_len(3)),
                            };
                            v[1088..].copy_from_slice(&p);
                            v
                        } else {
                            p
                        }
                    }
                    _ => match spec_bytes(&spec, model::ct_len(s), 0, &base) {
                        Some(c) => c,
                        None => return,
                    },
                };
                self.count("fault.forged_ciphertext");
                self.handle(Ev::Deliver { step: i, key, node, ct, tries: 0 });
            }
            Op::Hostile { s, dk, spec, ent } => {
                let Some(img) = self.img(node) else { return };
                if !build_has(build, s) || (dk && model::is_dh(s)) {
                    return;
                }
                if let BSpec::Base(b, _) = &spec {
                    if matches!(self.slot(*b), Slot::Pending) {
                        self.deferred.push(Ev::Step(i));
                        return;
                    }
                }
                let n = if dk { model::dk_len(s) } else { model::ek_len(s) };
                let packed = match (s, dk) {
                    (0..=2, false) => n - 32,
                    (0..=2, true) => n - 96,
                    (3, false) => 1152,
                    _ => 0,
                };
                let Some(bytes) = spec_bytes(&spec, n, packed, &|id| self.base_bytes(s, id, dk)) else { return };
                let ct = Rng::new(ent.seed).bytes(model::ct_len(s));
                self.count(if dk { "fault.hostile_dk" } else { "fault.hostile_ek" });
                let op = Sop::Hostile { s, dk, bytes, ct, ent };
                let op2 = op.clone();
                self.spawn(
                    node,
                    if dk { "hostile_dk" } else { "hostile_ek" },
                    s,
                    no_entropy(),
                    vec!["C04"],
                    Pend::Hostile { step: i, op },
                    Box::new(move || {
                        let o = exec(img, &op2);
                        let mut r = Res::out(o);
                        if r.st == PANIC {
                            r.counts.push((api::panic_text(img), 0));
                        }
                        Box::new(r)
                    }),
                );
            }
            Op::Key { key, what } => self.key_op(i, node, key, what),
            Op::Erase { s, how, ent, ct } => {
                let Some(img) = self.img(node) else { return };
                if !build_has(build, s) || !build.erases(s) {
                    return;
                }
                let bn = build.name();
                self.spawn(
                    node,
                    "erase",
                    s,
                    Entropy::new(ent.clone(), EntFault::default()),
                    vec!["C09"],
                    Pend::Special { step: i },
                    Box::new(move || Box::new(special::erase(img, bn, s, &how, &ent, ct))),
                );
            }
            Op::Marathon { s, how, n, ent } => {
                let Some(img) = self.img(node) else { return };
                if !build_has(build, s) {
                    return;
                }
                let bn = build.name();
                self.spawn(
                    node,
                    "marathon",
                    s,
                    Entropy::new(ent.clone(), EntFault::default()),
                    vec!["C07", agree(s)],
                    Pend::Special { step: i },
                    Box::new(move || Box::new(special::marathon(img, bn, s, how, n, &ent))),
                );
            }
            Op::Timing { s, ent, n, how } => {
                let Some(img) = self.img(node) else { return };
                if !build_has(build, s) {
                    return;
                }
                let bn = build.name();
                self.spawn(
                    node,
                    "timing",
                    s,
                    Entropy::new(ent.clone(), EntFault::default()),
                    vec!["C08"],
                    Pend::Special { step: i },
                    Box::new(move || Box::new(special::timing(img, bn, s, &ent, n, how))),
                );
            }
        }
    }

    fn key_op(&mut self, i: usize, node: u8, key: u32, what: KOp) {
        let k = match self.slot(key) {
            Slot::Pending => {
                self.deferred.push(Ev::Step(i));
                return;
            }
            Slot::Failed => return,
            Slot::Ready(k) => k,
        };
        let Some(img) = self.img(node) else { return };
        let Some(h) = self.pick_handle(k, node, i as u64) else { return };
        let s = self.keys[k].s;
        let hd = &self.handles[h];
        if matches!(what, KOp::Drop | KOp::Rewrap) && hd.inflight > 0 {
            // its owner still has operations running on it
            self.count("keyop_busy");
            return;
        }
        let (dk, ek) = (hd.dk, hd.ek);
        let mut aux = None;
        let mut mutated = vec![];
        if let KOp::Eq(o) = &what {
            match self.slot(*o) {
                Slot::Ready(o) if self.keys[o].s == s => aux = self.pick_handle(o, node, i as u64 + 1),
                _ => {}
            }
            if aux.is_none() {
                return;
            }
        }
        if let KOp::EqMut(m) = &what {
            mutated = self.keys[self.handles[h].key].dk.clone();
            apply_muts(&mut mutated, m, &|id| self.base_bytes(s, id, true));
        }
        if let KOp::EkMut(m) = &what {
            if !self.keys[k].good {
                return;
            }
            mutated = self.keys[k].ek.clone();
            if m.is_empty() && s > 4 {
                mutated = model::dh_reencode(s, &mutated, true).unwrap_or_default();
                if let Some(b) = mutated.first_mut() {
                    *b ^= 1;
                }
            } else {
                apply_muts(&mut mutated, m, &|id| self.base_bytes(s, id, false));
            }
        }
        let auxp = aux.map(|a| (self.handles[a].dk, self.handles[a].ek));
        if let Some(a) = aux {
            self.handles[a].inflight += 1;
        }
        self.handles[h].inflight += 1;
        if matches!(what, KOp::Drop) {
            self.handles[h].dead = true;
        }
        let w2 = what.clone();
        let mb = mutated.clone();
        let label = match what {
            KOp::Clone => "clone",
            KOp::Reload => "reload",
            KOp::Rewrap => "rewrap",
            KOp::Forms => "forms",
            KOp::Eq(_) => "eq",
            KOp::Drop => "drop",
            KOp::EqMut(_) => "eqmut",
            KOp::EkMut(_) => "ekmut",
        };
        if matches!(what, KOp::Rewrap) {
            // nobody may use the old object meanwhile
            self.handles[h].dead = true;
        }
        let tag = if matches!(what, KOp::EqMut(_) | KOp::EkMut(_)) { vec![durable(s), "C04"] } else { vec![durable(s)] };
        self.spawn(
            node,
            label,
            s,
            no_entropy(),
            tag,
            Pend::Key { step: i, handle: h, what, aux, mutated },
            Box::new(move || {
                let mut r = Res::new(OK);
                macro_rules! tri {
                    ($e:expr) => {{
                        let v = $e;
                        if v.0 != OK {
                            r.st = v.0;
                            if v.0 == PANIC {
                                r.counts.push((api::panic_text(img), 0));
                            }
                            return Box::new(r);
                        }
                        v
                    }};
                }
                match w2 {
                    KOp::Clone => {
                        let (st, d) = dk_clone(img, s, dk);
                        if st == UNSUPPORTED {
                            r.st = st;
                            return Box::new(r);
                        }
                        tri!((st, d));
                        let (_, e) = tri!(ek_clone(img, s, ek));
                        r.dk = d;
                        r.ek = e;
                        let (_, ekb) = tri!(ek_bytes(img, s, e));
                        let (_, dkb) = tri!(dk_view(img, s, d, &ekb));
                        r.out = Outp::ok(vec![dkb, ekb]);
                        let (st, eq) = ek_eq(img, s, ek, e);
                        r.flags.insert("ek_eq", st != OK || eq);
                        let (st, eq) = dk_eq(img, s, dk, d);
                        r.flags.insert("dk_eq", st != OK || eq);
                    }
                    KOp::Reload => {
                        let (_, b) = tri!(dk_store(img, s, dk));
                        let (_, d) = tri!(dk_load(img, s, &b));
                        let (_, e) = tri!(dk_ek(img, s, d));
                        let (_, eb) = tri!(ek_bytes(img, s, ek));
                        let (_, e2) = tri!(ek_load(img, s, &eb));
                        let (st, eq) = ek_eq(img, s, e, e2);
                        r.flags.insert("ek_eq", st != OK || eq);
                        let (st, eq) = dk_eq(img, s, dk, d);
                        r.flags.insert("dk_eq", st != OK || eq);
                        ek_free(img, s, e);
                        r.dk = d;
                        r.ek = e2;
                        let (_, dkb) = tri!(dk_store(img, s, d));
                        let (_, ekb) = tri!(ek_bytes(img, s, e2));
                        r.out = Outp::ok(vec![dkb, ekb]);
                    }
                    KOp::Rewrap => {
                        let (mut d, mut e) = (dk, ek);
                        tri!((rewrap(img, s, &mut d, &mut e), ()));
                        r.dk = d;
                        r.ek = e;
                        let (_, ekb) = tri!(ek_bytes(img, s, e));
                        let (_, dkb) = tri!(dk_view(img, s, d, &ekb));
                        r.out = Outp::ok(vec![dkb, ekb]);
                    }
                    KOp::Forms => {
                        let mut v = vec![];
                        for f in 0..4 {
                            v.push(tri!(ek_store(img, s, ek, f)).1);
                        }
                        let (st, e) = dk_ek(img, s, dk);
                        if st == OK {
                            v.push(tri!(ek_bytes(img, s, e)).1);
                            ek_free(img, s, e);
                        }
                        r.out = Outp::ok(v);
                    }
                    KOp::Eq(_) => {
                        let (d2, e2) = auxp.unwrap();
                        let (st, eq) = dk_eq(img, s, dk, d2);
                        if st == OK {
                            r.flags.insert("dk_eq", eq);
                        }
                        let (st, eq) = ek_eq(img, s, ek, e2);
                        if st == OK {
                            r.flags.insert("ek_eq", eq);
                        }
                        if stores_dk(s) {
                            let (_, a) = tri!(dk_store(img, s, dk));
                            let (_, b) = tri!(dk_store(img, s, d2));
                            r.flags.insert("dk_same", a == b);
                        }
                        let (_, a) = tri!(ek_bytes(img, s, ek));
                        let (_, b) = tri!(ek_bytes(img, s, e2));
                        r.flags.insert("ek_same", a == b);
                        r.out = Outp::ok(vec![]);
                    }
                    KOp::EqMut(_) => {
                        let (st, d) = dk_load(img, s, &mb);
                        r.flags.insert("loaded", st == OK);
                        if st == REFUSED {
                            r.st = OK;
                            return Box::new(r);
                        }
                        tri!((st, d));
                        let (_, b) = tri!(dk_store(img, s, d));
                        let (st, eq) = dk_eq(img, s, dk, d);
                        if st == OK {
                            r.flags.insert("dk_eq", eq);
                        }
                        let (st, eq) = dk_eq(img, s, d, dk);
                        if st == OK {
                            r.flags.insert("dk_eq_rev", eq);
                        }
                        dk_free(img, s, d);
                        r.out = Outp::ok(vec![b]);
                    }
                    KOp::EkMut(_) => {
                        let (st, e) = ek_load(img, s, &mb);
                        r.flags.insert("loaded", st == OK);
                        if st == REFUSED {
                            r.st = OK;
                            return Box::new(r);
                        }
                        tri!((st, e));
                        let (_, b) = tri!(ek_bytes(img, s, e));
                        let (st, eq) = ek_eq(img, s, ek, e);
                        if st == OK {
                            r.flags.insert("ek_eq", eq);
                        }
                        let (st, eq) = ek_eq(img, s, e, ek);
                        if st == OK {
                            r.flags.insert("ek_eq_rev", eq);
                        }
                        ek_free(img, s, e);
                        r.out = Outp::ok(vec![b]);
                    }
                    KOp::Drop => {
                        tri!((dk_free(img, s, dk), ()));
                        tri!((ek_free(img, s, ek), ()));
                        r.out = Outp::ok(vec![]);
                    }
                }
                Box::new(r)
            }),
        );
    }

    /// The classical private value of a key.
    fn dh_secret(&self, k: usize) -> Option<Vec<u8>> {
        let key = &self.keys[k];
        match key.s {
            3 if key.dk.len() == 32 => Some(model::xw_expand(&key.dk).sk_x.to_vec()),
            4..=8 if !key.dk.is_empty() => Some(key.dk.clone()),
            _ => None,
        }
    }

    fn crash(&mut self, i: usize, node: u8, nb: Build) {
        if self.nodes[node as usize].build == Build::Ref || nb == Build::Ref {
            return;
        }
        // a new process needs an image nobody used before
        if self.free.get(&nb).map_or(0, |v| v.len()) <= 1 {
            self.count("crash_skipped");
            return;
        }
        let ids: Vec<u32> = self.tasks.iter().filter(|(_, t)| t.node == node).map(|(&i, _)| i).collect();
        for id in &ids {
            self.k.abandon(*id);
            if let Some(t) = self.tasks.remove(id) {
                match t.pend {
                    Pend::KeyGen { key, .. } => {
                        self.slots.insert(key, Slot::Failed);
                    }
                    Pend::Encap { msg, handle, .. } => {
                        self.msg_slots.insert(msg, true);
                        if let Some(h) = handle {
                            self.handles[h].inflight = self.handles[h].inflight.saturating_sub(1);
                        }
                    }
                    _ => {}
                }
            }
        }
        if !ids.is_empty() {
            self.count("fault.crash_mid_operation");
        }
        self.count("fault.crash");
        for h in self.handles.iter_mut() {
            if h.node == node {
                h.dead = true;
            }
        }
        if self.nodes[node as usize].build != nb {
            self.count("fault.restart_as_other_build");
        }
        let img = self.take_image(nb);
        let n = &mut self.nodes[node as usize];
        n.build = nb;
        n.img = img;
        let k = ids.len();
        self.log(|| format!("step {i}: node {node} crashes with {k} operations in flight, restarts as {}", nb.name()), 3);
        self.retry_deferred();
    }

    fn write_disk(&mut self, node: u8, key: u32, b: &[u8], f: &DiskFault) {
        let mut v = b.to_vec();
        match f {
            DiskFault::None => {}
            DiskFault::Lost => {
                self.count("fault.disk_lost_write");
                return;
            }
            DiskFault::Torn(p) => {
                self.count("fault.disk_torn_write");
                let n = v.len() * *p as usize / 1000;
                v[n..].fill(0);
            }
            DiskFault::Short(p) => {
                self.count("fault.disk_short_write");
                v.truncate(v.len() * *p as usize / 1000);
            }
            DiskFault::Stale(p, tail) => {
                let old = self.nodes[node as usize].disk.iter().rev().find(|(k, o)| **k != key && o.len() == v.len());
                if let Some((_, o)) = old {
                    let n = v.len() * *p as usize / 1000;
                    let r = if *tail { n..v.len() } else { 0..n };
                    v[r.clone()].copy_from_slice(&o[r]);
                    self.count("fault.disk_stale_sectors");
                }
            }
            DiskFault::Rot(_) if v.is_empty() => {}
            DiskFault::Rot(bits) => {
                self.count("fault.disk_bit_rot");
                for &x in bits {
                    let x = x as usize % (8 * v.len());
                    v[x / 8] ^= 1 << (x % 8);
                }
            }
        }
        self.nodes[node as usize].disk.insert(key, v);
    }

    fn recover(&mut self, i: usize, node: u8, key: u32) {
        let k = match self.slot(key) {
            Slot::Pending => {
                self.deferred.push(Ev::Step(i));
                return;
            }
            Slot::Failed => return,
            Slot::Ready(k) => k,
        };
        let s = self.keys[k].s;
        let Some(bytes) = self.nodes[node as usize].disk.get(&key).cloned() else {
            self.count("recover_nothing_durable");
            return;
        };
        let build = self.nodes[node as usize].build;
        if !build_has(build, s) || model::is_dh(s) {
            return;
        }
        if build == Build::Ref {
            if bytes == self.keys[k].dk {
                self.handles.push(Handle {
                    key: k,
                    node,
                    img: None,
                    dk: 0,
                    ek: 0,
                    inflight: 0,
                    dead: false,
                    origin: Origin::Stored,
                });
            } else {
                self.nodes[node as usize].disk.remove(&key);
            }
            return;
        }
        let img = self.img(node).unwrap();
        let b = bytes.clone();
        let intact = bytes == self.keys[k].dk;
        if intact {
            self.count("recover_intact");
        } else {
            self.count("recover_damaged");
        }
        self.spawn(
            node,
            "recover",
            s,
            no_entropy(),
            vec![if intact { durable(s) } else { "C04" }],
            Pend::Load { step: i, key: k, bytes },
            Box::new(move || {
                let (st, d) = dk_load(img, s, &b);
                let mut r = Res::new(st);
                if st != OK {
                    if st == PANIC {
                        r.counts.push((api::panic_text(img), 0));
                    }
                    return Box::new(r);
                }
                let (x, dkb) = dk_store(img, s, d);
                let (y, e) = dk_ek(img, s, d);
                let (z, ekb) = if y == OK { ek_bytes(img, s, e) } else { (y, vec![]) };
                for c in [x, y, z] {
                    if c != OK {
                        r.st = c;
                        if c == PANIC {
                            r.counts.push((api::panic_text(img), 0));
                        }
                        return Box::new(r);
                    }
                }
                r.dk = d;
                r.ek = e;
                r.out = Outp::ok(vec![dkb, ekb]);
                Box::new(r)
            }),
        );
    }

    #[allow(clippy::too_many_arguments)]
    fn new_key(&mut self, id: u32, s: u32, ek: Vec<u8>, dk: Vec<u8>, mat: KeyMat, build: Build, good: bool) -> usize {
        self.keys.push(Rec {
            id,
            s,
            ek,
            dk,
            mat,
            build,
            good,
            honest: BTreeMap::new(),
            seen: BTreeMap::new(),
        });
        let k = self.keys.len() - 1;
        if good {
            self.slots.insert(id, Slot::Ready(k));
        }
        k
    }

    /// An encapsulation succeeded: remember it, put it on the wire.
    #[allow(clippy::too_many_arguments)]
    fn sent(&mut self, step: usize, msg: u32, key: usize, build: Build, ct: Vec<u8>, ss: Vec<u8>, dels: &[Del]) {
        let id = self.keys[key].id;
        self.keys[key].honest.insert(ct.clone(), (ss, build, msg));
        self.msgs.insert(msg, Msg { ct: ct.clone() });
        self.msg_slots.insert(msg, true);
        if dels.len() > 1 {
            *self.r.counts.entry("fault.net_duplicate".into()).or_default() += dels.len() as u64 - 1;
        }
        for d in dels {
            if d.dropped {
                self.count("fault.net_drop");
                continue;
            }
            if d.node as usize >= self.nodes.len() {
                continue;
            }
            let mut b = ct.clone();
            if !d.muts.is_empty() {
                apply_muts(&mut b, &d.muts, &|m| {
                    if m == OWN {
                        return Some(self.keys[key].ek.clone());
                    }
                    self.msgs.get(&m).map(|m| m.ct.clone())
                });
                if b != ct {
                    self.count("fault.net_corrupt");
                }
            }
            let to = d.misroute.unwrap_or(id);
            if to != id {
                self.count("fault.net_misroute");
            }
            if d.delay > 0 {
                self.count("fault.net_delay");
            }
            let t = self.k.clock + d.delay;
            self.at(t, Ev::Deliver { step, key: to, node: d.node, ct: b, tries: 0 });
        }
    }

    /// Run alone on a pristine image of this build.  None: no budget / no image / did not return.
    fn solo(&mut self, b: Build, op: &Sop) -> Option<Outp> {
        if self.solo_budget == 0 {
            return None;
        }
        self.solo_budget -= 1;
        let img = self.fleet.pristine(b)?;
        self.count("solo_runs");
        let v = kernel::solo(no_entropy(), || exec(img, op).encode())?;
        Outp::decode(&v)
    }

    /// The same operation in a form that can be executed alone.
    fn sop_of(&self, p: &Pend) -> Option<Sop> {
        Some(match p {
            Pend::KeyGen { s, draw, ent, .. } => Sop::KeyGen { s: *s, draw: *draw, ent: ent.clone() },
            Pend::Load { key, bytes, .. } => Sop::Hostile {
                s: self.keys[*key].s,
                dk: true,
                bytes: bytes.clone(),
                ct: vec![0; model::ct_len(self.keys[*key].s)],
                ent: EntSpec::stream(1),
            },
            Pend::Encap { key, det, ent, handle, .. } => {
                let t = &self.keys[handle.map_or(*key, |h| self.handles[h].key)];
                Sop::Encap { s: t.s, ek: t.ek.clone(), det: *det, ent: ent.clone() }
            }
            Pend::Decap { handle, ct, .. } => {
                let t = &self.keys[self.handles[*handle].key];
                Sop::Decap { s: t.s, key: t.mat.clone(), ct: ct.clone() }
            }
            Pend::Hostile { op, .. } | Pend::Mirror { op, .. } | Pend::Rerun { op, .. } => op.clone(),
            Pend::Key { handle, .. } => {
                let t = &self.keys[self.handles[*handle].key];
                let ct = t.honest.keys().next().cloned().or_else(|| model::is_dh(t.s).then(|| t.ek.clone()));
                Sop::Decap { s: t.s, key: t.mat.clone(), ct: ct.unwrap_or_else(|| vec![0; model::ct_len(t.s)]) }
            }
            Pend::Special { .. } => return None,
        })
    }

    /// The output disagrees with the standard: is it the operation itself, or its surroundings?
    fn surroundings(&mut self, step: usize, build: Build, img: usize, op: &Sop, got: &Outp, what: &str) {
        if let Some(alone) = self.solo(build, op) {
            if alone != *got {
                let mut tags = vec!["C07"];
                if self.faulted.contains(&img) {
                    tags.push("C05");
                }
                self.fail(
                    &tags,
                    "depends-on-surroundings",
                    what.to_string(),
                    format!("{what}: got {}, but the same operation alone in a fresh process gives {}", got.brief(), alone.brief()),
                    step,
                );
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn judge_decap(
        &mut self,
        step: usize,
        k: usize,
        build: Build,
        origin: Origin,
        ct: &[u8],
        out: &Outp,
        img: Option<usize>,
    ) {
        let s = self.keys[k].s;
        let site = format!("decap/{}/{}", build.name(), model::NAMES[s as usize]);
        let name = model::NAMES[s as usize];
        let key = &self.keys[k];
        let id = key.id;
        let (good, kbuild) = (key.good, key.build);
        let honest = key.honest.get(ct).cloned();
        let wellformed = if model::is_dh(s) {
            model::canonical_public(s, ct).is_some()
        } else {
            ct.len() == model::ct_len(s)
        };
        // panics and refusals
        if out.st == PANIC || out.st == ENTROPY || (out.st == REFUSED && wellformed) || (out.st == OK && !wellformed) {
            let mut tags = vec![if !good {
                "C04"
            } else if honest.is_some() {
                agree(s)
            } else {
                tamper(s)
            }];
            if honest.is_none() {
                tags.push("C04");
            }
            if good && origin == Origin::Stored {
                tags.push(durable(s));
            }
            if honest.as_ref().is_some_and(|h| h.1 == Build::Ref) {
                tags.push("C13");
            }
            self.fail(
                &tags,
                "decap-status",
                site.clone(),
                format!(
                    "key {id} ({name}): decapsulating a {} ciphertext of {} bytes: {}",
                    if honest.is_some() { "genuine" } else { "damaged or forged" },
                    ct.len(),
                    status_name(out.st)
                ),
                step,
            );
            if let Some(img) = img {
                let op = Sop::Decap { s, key: self.keys[k].mat.clone(), ct: ct.to_vec() };
                self.surroundings(step, build, img, &op, out, &site);
            }
            return;
        }
        if out.st != OK {
            return;
        }
        let exp = model::std_decap(s, &self.keys[k].dk, ct).map(|x| Outp::ok(vec![x]));
        let matches_std = exp.as_ref() == Some(out);
        let op = Sop::Decap { s, key: self.keys[k].mat.clone(), ct: ct.to_vec() };

        if let (Some((ss, sender, msg)), true) = (&honest, good) {
            let ref_side = build == Build::Ref || *sender == Build::Ref || kbuild == Build::Ref;
            if build != Build::Ref && *sender != Build::Ref {
                self.checked(agree(s));
            }
            if ref_side {
                self.checked("C13");
            }
            if out.parts[0] != *ss {
                let mut tags = vec![];
                if ref_side {
                    tags.push("C13");
                }
                if build != Build::Ref && *sender != Build::Ref && kbuild != Build::Ref {
                    tags.push(agree(s));
                }
                self.fail(
                    &tags,
                    "no-agreement",
                    site.clone(),
                    format!(
                        "message {msg} to key {id} ({name}): build {} encapsulated {}, build {} ({:?}) decapsulated {}",
                        sender.name(),
                        hex(ss),
                        build.name(),
                        origin,
                        hex(&out.parts[0])
                    ),
                    step,
                );
            }
        } else if good {
            self.checked(tamper(s));
            self.count("rejections_checked");
            if build != Build::Ref && !matches_std {
                self.fail(
                    &[tamper(s)],
                    "bad-rejection",
                    site.clone(),
                    format!(
                        "key {id} ({name}), ciphertext that was never sent to it: decapsulated {}, prescribed {}",
                        out.brief(),
                        exp.as_ref().map_or("refusal".into(), |e| e.brief())
                    ),
                    step,
                );
            }
            // it must not be any secret ever agreed under this key, nor one for another ciphertext
            let clash = self.keys[k].honest.iter().find(|(_, v)| v.0 == out.parts[0]).map(|(_, v)| v.2);
            if let Some(m) = clash {
                if !model::is_dh(s) {
                    self.fail(
                        &[tamper(s)],
                        "rejection-not-separate",
                        site.clone(),
                        format!("key {id} ({name}): a ciphertext that was never sent to it yields the secret of message {m}"),
                        step,
                    );
                }
            }
        } else {
            self.checked("C04");
        }
        if build == Build::Ref {
            return;
        }
        if good {
            self.checked("C13");
            if !matches_std && honest.is_none() {
                self.fail(
                    &["C13"],
                    "non-standard",
                    site.clone(),
                    format!(
                        "key {id} ({name}): decapsulated {}, a conforming holder of the same key gets {}",
                        out.brief(),
                        exp.as_ref().map_or("refusal".into(), |e| e.brief())
                    ),
                    step,
                );
            }
            if !matches_std && honest.is_some() && !model::is_dh(s) {
                // both ends are ours and agree with each other, but with nobody else
                self.fail(
                    &["C13"],
                    "non-standard",
                    site.clone(),
                    format!("key {id} ({name}): decapsulated {}, a conforming holder gets {}", out.brief(), exp.as_ref().map_or("refusal".into(), |e| e.brief())),
                    step,
                );
            }
        } else if !matches_std {
            // a key parsed from damaged bytes must act as the value those bytes denote
            let canon = Sop::Decap { s, key: KeyMat::Bytes(self.keys[k].dk.clone()), ct: ct.to_vec() };
            if let Some(a) = self.solo(build, &canon) {
                if a != *out {
                    self.fail(
                        &["C04"],
                        "damaged-key-differs",
                        site.clone(),
                        format!("key {id} restored from damaged bytes: decapsulated {}, the canonical form of the same value gives {}", out.brief(), a.brief()),
                        step,
                    );
                }
            }
        }
        if !matches_std {
            if let Some(img) = img {
                self.surroundings(step, build, img, &op, out, &site);
            }
        }
        self.checked("C07");
        // the same key and ciphertext, whenever, wherever, through whichever copy
        match self.keys[k].seen.get(ct).cloned() {
            Some(prev) => {
                if origin != prev.origin && good {
                    self.checked(durable(s));
                }
                self.count("repeated_decapsulations");
                if prev.out != *out {
                    let mut tags = vec![];
                    if good && (origin != prev.origin || prev.build != build) && !model::is_dh(s) {
                        tags.push(durable(s));
                    }
                    if good {
                        tags.push(if honest.is_some() { agree(s) } else { tamper(s) });
                    } else {
                        tags.push("C04");
                    }
                    self.fail(
                        &tags,
                        "unstable",
                        site,
                        format!(
                            "key {id} ({name}): the same ciphertext gave {} on build {} ({:?}) and now {} on build {} ({:?})",
                            prev.out.brief(),
                            prev.build.name(),
                            prev.origin,
                            out.brief(),
                            build.name(),
                            origin
                        ),
                        step,
                    );
                }
            }
            None => {
                self.keys[k].seen.insert(ct.to_vec(), Seen { out: out.clone(), origin, build });
            }
        }
    }

    fn mirror(&mut self, step: usize, node: u8, op: &Sop, first: &Outp) {
        if !self.plan.mirror {
            return;
        }
        let b = self.nodes[node as usize].build;
        let (s, need_det, need_os) = match op {
            Sop::KeyGen { s, draw, .. } => (*s, *draw == Draw::Det, matches!(draw, Draw::Os(_))),
            Sop::Encap { s, det, .. } => (*s, *det, false),
            Sop::Decap { s, .. } => (*s, false, false),
            Sop::Hostile { s, .. } => (*s, false, false),
        };
        let c: Vec<u8> = (0..self.nodes.len())
            .filter(|&n| {
                let nb = self.nodes[n].build;
                nb != b && nb != Build::Ref && build_has(nb, s)
            })
            .map(|n| n as u8)
            .collect();
        if c.is_empty() {
            return;
        }
        let n = c[(mix(step as u64, self.seq) % c.len() as u64) as usize];
        let img = self.img(n).unwrap();
        // the deterministic and OS entry points exist in one build only: elsewhere the same bytes
        // come through the caller's source
        let op2 = match op {
            Sop::KeyGen { s, draw, ent } if (need_det && !img.has_det()) || (need_os && !img.has_os()) => {
                let _ = draw;
                Sop::KeyGen { s: *s, draw: Draw::Rng, ent: ent.clone() }
            }
            Sop::Encap { s, ek, ent, .. } if need_det && !img.has_det() => {
                Sop::Encap { s: *s, ek: ek.clone(), det: false, ent: ent.clone() }
            }
            // ...and what the plain entry points made, the deterministic ones make as well
            Sop::KeyGen { s, draw: Draw::Rng, ent } if model::is_mlkem(*s) && img.has_det() && step % 2 == 0 => {
                Sop::KeyGen { s: *s, draw: Draw::Det, ent: ent.clone() }
            }
            Sop::Encap { s, ek, det: false, ent } if model::is_mlkem(*s) && img.has_det() && step % 2 == 0 => {
                Sop::Encap { s: *s, ek: ek.clone(), det: true, ent: ent.clone() }
            }
            o => o.clone(),
        };
        let job = op2.clone();
        self.spawn(
            n,
            "mirror",
            s,
            no_entropy(),
            vec!["C14"],
            Pend::Mirror { step, op: op2, orig: op.clone(), first: first.clone(), build: b },
            Box::new(move || Box::new(Res::out(exec(img, &job)))),
        );
    }

    fn rerun(&mut self, step: usize, node: u8, op: &Sop, first: &Outp, drawn: &[u8]) {
        if !self.plan.rerun {
            return;
        }
        let img = self.img(node).unwrap();
        let lit = |b: &[u8], seed: u64| EntSpec { seed, pat: EntPat::Lit(hex(b)) };
        let seed = mix(step as u64, 0x5eed);
        let mk = |e: EntSpec| match op {
            Sop::KeyGen { s, draw, .. } => {
                Sop::KeyGen { s: *s, draw: if matches!(draw, Draw::Os(_)) { *draw } else { Draw::Rng }, ent: e }
            }
            Sop::Encap { s, ek, .. } => Sop::Encap { s: *s, ek: ek.clone(), det: false, ent: e },
            o => o.clone(),
        };
        let s = match op {
            Sop::KeyGen { s, .. } | Sop::Encap { s, .. } => *s,
            _ => return,
        };
        let same = mk(lit(drawn, seed));
        let j = same.clone();
        self.spawn(
            node,
            "rerun",
            s,
            no_entropy(),
            vec!["C06"],
            Pend::Rerun { step, op: same, first: first.clone(), flip: None },
            Box::new(move || Box::new(Res::out(exec(img, &j)))),
        );
        // one bit of what was drawn changes
        let mut f = drawn.to_vec();
        let mut r = Rng::new(mix(seed, hash_bytes(1, drawn)));
        let n = if model::is_dh(s) {
            // only the accepted candidate matters
            let n = model::dk_len(s);
            f.len().saturating_sub(n) * 8 + r.idx(8 * n.min(f.len()).max(1))
        } else {
            r.idx(8 * f.len().max(1))
        };
        if n / 8 >= f.len() {
            return;
        }
        f[n / 8] ^= 1 << (n % 8);
        let flip = mk(lit(&f, seed));
        let j = flip.clone();
        self.spawn(
            node,
            "rerun_flip",
            s,
            no_entropy(),
            vec!["C06"],
            Pend::Rerun { step, op: mk(lit(drawn, seed)), first: first.clone(), flip: Some(flip) },
            Box::new(move || Box::new(Res::out(exec(img, &j)))),
        );
    }

    fn entropy_oracles(&mut self, step: usize, what: &str, s: u32, keygen: bool, st: i32, draw: Draw, ent: &Entropy) {
        let l = &ent.log;
        if l.failed {
            self.count(if matches!(draw, Draw::Os(_)) { "fault.os_entropy_failed" } else { "fault.entropy_failed" });
            self.checked("C05");
            if st == OK {
                self.fail(
                    &["C05"],
                    "output-without-entropy",
                    what.into(),
                    format!("{what}: the entropy source failed during the operation ({} draws, {} getrandom calls), which nevertheless returned a result", l.draws, l.os_calls),
                    step,
                );
            }
        }
        if l.stalled {
            self.count("fault.entropy_stalled");
        }
        if l.nested {
            self.count("fault.reentered_from_rng");
            self.checked("C07");
            if let Some(bad) = &l.nested_bad {
                self.fail(
                    &["C07"],
                    "nested-operation-differs",
                    what.into(),
                    format!("{what}: an operation its entropy source performed meanwhile gave {bad}"),
                    step,
                );
            }
        }
        if l.os_eintr > 0 {
            *self.r.counts.entry("fault.getrandom_eintr".into()).or_default() += l.os_eintr as u64;
        }
        if l.os_short > 0 {
            *self.r.counts.entry("fault.getrandom_short".into()).or_default() += l.os_short as u64;
        }
        if st != OK || l.failed {
            return;
        }
        // accounting
        self.checked("C06");
        let (n, other) = match draw {
            Draw::Rng => (l.drawn.len(), l.os_drawn.len()),
            Draw::Os(_) => (l.os_drawn.len(), l.drawn.len()),
            Draw::Det => (0, l.os_drawn.len() + l.drawn.len()),
        };
        let bytes = if matches!(draw, Draw::Os(_)) { &l.os_drawn } else { &l.drawn };
        let want = if draw == Draw::Det { Some(0) } else { std_consumption(s, keygen, bytes) };
        if want != Some(n) {
            self.fail(
                &["C06"],
                "entropy-accounting",
                what.into(),
                format!("{what} consumed {n} bytes of entropy, prescribed {want:?}"),
                step,
            );
        }
        if other > 0 {
            self.fail(
                &["C06"],
                "hidden-entropy",
                what.into(),
                format!("{what} took {other} bytes from a source it was not given"),
                step,
            );
        }
    }

    /// Operations that are to draw nothing.
    fn no_draws(&mut self, step: usize, what: &str, ent: &Entropy) {
        if ent.log.draws + ent.log.os_calls > 0 {
            self.fail(
                &["C06"],
                "hidden-entropy",
                what.into(),
                format!("{what} drew entropy ({} draws, {} getrandom calls) although it is deterministic", ent.log.draws, ent.log.os_calls),
                step,
            );
        }
    }

    fn complete(&mut self, t: Task, res: Res, blocks: u64, ent: Entropy) {
        let b = self.nodes[t.node as usize].build;
        let what = t.what.clone();
        if self.plan.sched.host != 0 {
            self.checked("C20");
        }
        let panic = res.counts.iter().find(|c| c.1 == 0).map(|c| c.0.clone()).unwrap_or_default();
        {
            let h = hash_bytes(hash_bytes(blocks, what.as_bytes()), &res.out.encode());
            let st = res.st;
            let o = res.out.brief();
            let stp = step_of(&t.pend);
            self.log(|| format!("step {stp}: node {} {what} [{blocks} blocks]: {} {}", t.node, status_name(st), if st == OK { o } else { panic.clone() }), h);
        }
        match t.pend {
            Pend::KeyGen { step, key, s, draw, ent: spec, fault, disk } => {
                self.entropy_oracles(step, &format!("{what} ({})", draw_name(draw)), s, true, res.st, draw, &ent);
                if ent.log.failed {
                    self.faulted.insert(t.img);
                }
                if res.st != OK {
                    self.slots.insert(key, Slot::Failed);
                    if !ent.log.failed {
                        let mut tags = vec![agree(s)];
                        if ent.log.os_eintr + ent.log.os_short > 0 || self.faulted.contains(&t.img) {
                            tags.push("C05");
                        }
                        let op = Sop::KeyGen { s, draw, ent: spec };
                        if self.plan.mirror {
                            self.mirror(step, t.node, &op, &res.out);
                        }
                        self.surroundings(step, b, t.img, &op, &res.out, &what);
                        self.fail(&tags, "keygen-status", what.clone(), format!("{what} with a healthy source: {} {panic}", status_name(res.st)), step);
                    }
                    return;
                }
                if ent.log.failed {
                    self.slots.insert(key, Slot::Failed);
                    return;
                }
                let _ = fault;
                let drawn = match draw {
                    Draw::Rng => ent.log.drawn.clone(),
                    Draw::Os(_) => ent.log.os_drawn.clone(),
                    Draw::Det => spec.bytes(64),
                };
                let op = Sop::KeyGen { s, draw, ent: spec.clone() };
                let exp = expect(&op);
                self.checked("C13");
                self.checked("C07");
                if self.faulted.contains(&t.img) {
                    self.checked("C05");
                }
                if exp.as_ref() != Some(&res.out) {
                    let tag = if model::is_dh(s) { "C12" } else { "C13" };
                    self.fail(
                        &[tag],
                        "non-standard",
                        what.clone(),
                        format!("{what} from entropy {}: {}; a conforming implementation makes {}", hex(&drawn[..drawn.len().min(64)]), res.out.brief(), exp.map_or("nothing".into(), |e| e.brief())),
                        step,
                    );
                    self.surroundings(step, b, t.img, &op, &res.out, &what);
                }
                let ek = res.out.parts[1].clone();
                let mat = if model::is_dh(s) {
                    KeyMat::Ent(EntSpec { seed: spec.seed, pat: EntPat::Lit(hex(&drawn)) })
                } else {
                    KeyMat::Bytes(res.out.parts[0].clone())
                };
                let dk = if model::is_dh(s) {
                    match model::dh_keygen(s, &spec.bytes(66 * 1500)) {
                        Some(x) => x.0,
                        None => {
                            self.slots.insert(key, Slot::Failed);
                            return;
                        }
                    }
                } else {
                    res.out.parts[0].clone()
                };
                let k = self.new_key(key, s, ek, dk.clone(), mat, b, true);
                self.handles.push(Handle {
                    key: k,
                    node: t.node,
                    img: Some(t.img),
                    dk: res.dk,
                    ek: res.ek,
                    inflight: 0,
                    dead: false,
                    origin: Origin::Gen,
                });
                if let (Some(d), false) = (disk, model::is_dh(s)) {
                    self.write_disk(t.node, key, &dk, &d);
                }
                self.mirror(step, t.node, &op, &res.out);
                self.rerun(step, t.node, &op, &res.out, &drawn);
            }
            Pend::Load { step, key, bytes } => {
                self.no_draws(step, &what, &ent);
                let rec = &self.keys[key];
                let (s, id) = (rec.s, rec.id);
                let intact = bytes == rec.dk;
                let right_len = bytes.len() == model::dk_len(s);
                let tag = if intact { durable(s) } else { "C04" };
                self.checked(tag);
                if res.st != OK {
                    if res.st != REFUSED || right_len {
                        self.fail(&[tag], "recover-status", what.clone(), format!("{what}: key {id} from its {} stored bytes: {} {panic}", if intact { "intact" } else { "damaged" }, status_name(res.st)), step);
                    }
                    self.nodes[t.node as usize].disk.remove(&id);
                    return;
                }
                if !right_len {
                    self.fail(&["C04"], "recover-status", what.clone(), format!("{what}: accepted {} bytes", bytes.len()), step);
                    return;
                }
                let canon_dk = if model::is_mlkem(s) { model::canonical_dk(model::params(s), &bytes) } else { bytes.clone() };
                if res.out.parts[0] != canon_dk || (intact && res.out.parts[1] != self.keys[key].ek) {
                    let op = self.sop_of(&Pend::Load { step, key, bytes: bytes.clone() }).unwrap();
                    if let Some(alone) = self.solo(b, &op).filter(|a| a.st == OK) {
                        if alone.parts[..2] != res.out.parts[..2] {
                            let mut tags = vec!["C07"];
                            if self.faulted.contains(&t.img) {
                                tags.push("C05");
                            }
                            self.fail(&tags, "depends-on-surroundings", what.clone(), format!("{what}: restored as something else than in a fresh process"), step);
                        }
                    }
                }
                let k = if intact {
                    if res.out.parts[0] != bytes {
                        self.fail(&[tag], "restored-bytes-differ", what.clone(), format!("{what}: key {id} restored from its stored bytes stores differently: {}", diff(&bytes, &res.out.parts[0])), step);
                    }
                    if res.out.parts[1] != self.keys[key].ek {
                        self.fail(&[tag], "restored-public-differs", what.clone(), format!("{what}: key {id} restored from its stored bytes has another public key: {}", diff(&self.keys[key].ek, &res.out.parts[1])), step);
                    }
                    key
                } else {
                    if res.out.parts[0] != canon_dk {
                        self.fail(&["C04"], "not-canonical", what.clone(), format!("{what}: damaged bytes are stored back as something other than the value they denote: {}", diff(&canon_dk, &res.out.parts[0])), step);
                    }
                    let mat = KeyMat::Bytes(bytes.clone());
                    self.new_key(id, s, res.out.parts[1].clone(), canon_dk, mat, b, false)
                };
                self.handles.push(Handle {
                    key: k,
                    node: t.node,
                    img: Some(t.img),
                    dk: res.dk,
                    ek: res.ek,
                    inflight: 0,
                    dead: false,
                    origin: Origin::Stored,
                });
            }
            Pend::Encap { step, msg, key, wire, det, ent: spec, handle } => {
                if let Some(h) = handle {
                    self.handles[h].inflight -= 1;
                }
                let s = self.keys[key].s;
                let draw = if det { Draw::Det } else { Draw::Rng };
                self.entropy_oracles(step, &what, s, false, res.st, draw, &ent);
                if ent.log.failed {
                    self.faulted.insert(t.img);
                    self.msg_slots.insert(msg, true);
                    return;
                }
                // a handle to a key parsed from damaged bytes encapsulates to that key, not this one
                let target = handle.map_or(key, |h| self.handles[h].key);
                let good = self.keys[target].good;
                let op = Sop::Encap { s, ek: self.keys[target].ek.clone(), det, ent: spec.clone() };
                if res.st != OK {
                    self.msg_slots.insert(msg, true);
                    let mut tags = vec![if good { agree(s) } else { "C04" }];
                    if self.faulted.contains(&t.img) {
                        tags.push("C05");
                    }
                    self.mirror(step, t.node, &op, &res.out);
                    self.surroundings(step, b, t.img, &op, &res.out, &what);
                    self.fail(&tags, "encap-status", what.clone(), format!("{what} with a healthy source: {} {panic}", status_name(res.st)), step);
                    return;
                }
                let drawn = if det { spec.bytes(32) } else { ent.log.drawn.clone() };
                let (ct, ss) = (res.out.parts[0].clone(), res.out.parts[1].clone());
                if !good {
                    // the stored bytes name a public half and, separately, its hash; whichever of
                    // the stored and the true hash is used, nothing else may leak in
                    self.msg_slots.insert(msg, true);
                    self.checked("C04");
                    let dk = &self.keys[target].dk;
                    let mut ok = expect(&op).as_ref() == Some(&res.out);
                    if !ok && model::is_mlkem(s) && drawn.len() == 32 {
                        let p = model::params(s);
                        let n = 384 * p.k;
                        let (c, k) = model::encaps_with_hash(p, &dk[n..2 * n + 32], &dk[2 * n + 32..2 * n + 64], &drawn);
                        ok = res.out.parts[0] == c && res.out.parts[1] == k;
                    }
                    if !ok {
                        self.fail(
                            &["C04"],
                            "damaged-key-encap",
                            what.clone(),
                            format!("{what} to key {} restored from damaged bytes: not an encapsulation to the value they denote", self.keys[target].id),
                            step,
                        );
                    }
                    return;
                }
                let exp = expect(&op);
                self.checked("C13");
                self.checked("C07");
                if self.faulted.contains(&t.img) {
                    self.checked("C05");
                }
                if exp.as_ref() != Some(&res.out) {
                    let tag = if model::is_dh(s) { "C12" } else { "C13" };
                    self.fail(
                        &[tag],
                        "non-standard",
                        what.clone(),
                        format!("{what} to key {} with entropy {}: {}; a conforming implementation sends {}", self.keys[target].id, hex(&drawn[..drawn.len().min(64)]), res.out.brief(), exp.clone().map_or("nothing".into(), |e| e.brief())),
                        step,
                    );
                    self.surroundings(step, b, t.img, &op, &res.out, &what);
                }
                // different randomness never yields the same message (unless the standard maps it so)
                if let Some(prev) = self.cts.get(&ct) {
                    if *prev != drawn && exp.as_ref().is_some_and(|e| e.parts[0] != ct) {
                        self.fail(&["C06"], "ciphertext-reuse", what.clone(), format!("{what}: fresh entropy, but an earlier ciphertext came out again"), step);
                    }
                } else {
                    self.cts.insert(ct.clone(), drawn.clone());
                }
                self.mirror(step, t.node, &op, &res.out);
                self.rerun(step, t.node, &op, &res.out, &drawn);
                let dels = match &self.plan.steps[step].op {
                    Op::Encap { dels, .. } => dels.clone(),
                    _ => vec![],
                };
                let _ = wire;
                self.sent(step, msg, target, b, ct, ss, &dels);
            }
            Pend::Decap { step, handle, ct } => {
                self.no_draws(step, &what, &ent);
                self.handles[handle].inflight -= 1;
                let (k, origin) = (self.handles[handle].key, self.handles[handle].origin);
                if self.keys[k].s == 3 && ct.len() == model::ct_len(3) {
                    self.checked("C15");
                    if res.flags.get("ct_same") == Some(&false) || res.flags.get("ct_panic") == Some(&true) {
                        self.fail(&["C15"], "message-form-differs", what.clone(), format!("{what}: a ciphertext parsed from {} bytes is not written back as the same bytes, or a copy of it does not compare equal, or an altered one does", ct.len()), step);
                    }
                }
                self.judge_decap(step, k, b, origin, &ct, &res.out, Some(t.img));
                if self.faulted.contains(&t.img) {
                    self.checked("C05");
                }
                let op = Sop::Decap { s: self.keys[k].s, key: self.keys[k].mat.clone(), ct };
                self.mirror(step, t.node, &op, &res.out);
            }
            Pend::Hostile { step, op } => {
                self.judge_hostile(step, b, &what, &op, &res.out, &panic);
                self.mirror(step, t.node, &op, &res.out);
            }
            Pend::Key { step, handle, what: kop, aux, mutated } => {
                self.no_draws(step, &what, &ent);
                self.handles[handle].inflight -= 1;
                if let Some(a) = aux {
                    self.handles[a].inflight -= 1;
                }
                let k = self.handles[handle].key;
                let s = self.keys[k].s;
                let id = self.keys[k].id;
                // keys parsed from damaged bytes are C04's concern
                let good = self.keys[k].good;
                let good2 = aux.is_none_or(|a| self.keys[self.handles[a].key].good);
                let tag = if good && good2 { durable(s) } else { "C04" };
                if res.st == UNSUPPORTED {
                    return;
                }
                if res.st != OK {
                    self.fail(&[tag], "keyop-status", what.clone(), format!("{what} on key {id}: {} {panic}", status_name(res.st)), step);
                    return;
                }
                self.checked(tag);
                match kop {
                    KOp::Clone | KOp::Reload | KOp::Rewrap => {
                        let want = if model::is_dh(s) {
                            let rec = &self.keys[k];
                            model::dh(s, &rec.dk, &rec.ek).unwrap_or_default()
                        } else {
                            self.keys[k].dk.clone()
                        };
                        if res.out.parts[0] != want {
                            self.fail(&[tag], "copy-differs", what.clone(), format!("{what} of key {id}: secret half differs: {}", diff(&want, &res.out.parts[0])), step);
                        }
                        let ek = self.keys[k].ek.clone();
                        if res.out.parts[1] != ek {
                            self.fail(&[tag], "copy-differs", what.clone(), format!("{what} of key {id}: public half differs: {}", diff(&ek, &res.out.parts[1])), step);
                        }
                        for f in ["ek_eq", "dk_eq"] {
                            // a public half carries the stored hash along, right or wrong
                            if f == "ek_eq" && !good && matches!(kop, KOp::Reload) {
                                continue;
                            }
                            if res.flags.get(f) == Some(&false) {
                                self.fail(&[tag], "copy-not-equal", what.clone(), format!("{what} of key {id}: the copy does not compare equal ({f})"), step);
                            }
                        }
                        self.handles.push(Handle {
                            key: k,
                            node: t.node,
                            img: Some(t.img),
                            dk: res.dk,
                            ek: res.ek,
                            inflight: 0,
                            dead: false,
                            origin: if matches!(kop, KOp::Reload) { Origin::Stored } else { Origin::Clone },
                        });
                    }
                    KOp::Forms => {
                        let ek = self.keys[k].ek.clone();
                        for (f, p) in res.out.parts.iter().enumerate() {
                            let want =
                                if f == 1 && s > 4 { model::dh_reencode(s, &ek, true).unwrap_or_default() } else { ek.clone() };
                            if *p != want {
                                self.fail(&[tag], "public-form-differs", what.clone(), format!("{what} of key {id}: form {f}: {}", diff(&want, p)), step);
                            }
                        }
                    }
                    KOp::Eq(_) => {
                        for (e, m) in [("dk_eq", "dk_same"), ("ek_eq", "ek_same")] {
                            if e == "ek_eq" && !(good && good2) {
                                continue;
                            }
                            if let (Some(a), Some(b)) = (res.flags.get(e), res.flags.get(m)) {
                                if e == "ek_eq" && !*b {
                                    let o = self.handles[aux.unwrap()].key;
                                    if model::public_equal(s, &self.keys[k].ek, &self.keys[o].ek).is_none() {
                                        continue;
                                    }
                                }
                                if a != b {
                                    self.fail(&[tag], "equality-unfaithful", what.clone(), format!("{what}: keys with {} bytes compare {}", if *b { "equal" } else { "different" }, if *a { "equal" } else { "different" }), step);
                                }
                            }
                        }
                    }
                    KOp::EqMut(_) => {
                        let right = mutated.len() == model::dk_len(s);
                        if res.flags.get("loaded") != Some(&right) {
                            self.fail(&["C04"], "load-status", what.clone(), format!("{what}: {} bytes, accepted: {:?}", mutated.len(), res.flags.get("loaded")), step);
                        } else if right {
                            let canon = if model::is_mlkem(s) { model::canonical_dk(model::params(s), &mutated) } else { mutated.clone() };
                            if res.out.parts[0] != canon {
                                self.fail(&["C04"], "not-canonical", what.clone(), format!("{what}: {}", diff(&canon, &res.out.parts[0])), step);
                            }
                            let same = canon == self.keys[k].dk;
                            for f in ["dk_eq", "dk_eq_rev"] {
                                if let Some(e) = res.flags.get(f) {
                                    if *e != same {
                                        self.fail(&[tag], "equality-unfaithful", what.clone(), format!("{what}: a key whose stored form {} compares {}", if same { "is identical" } else { "differs" }, if *e { "equal" } else { "different" }), step);
                                    }
                                }
                            }
                        }
                    }
                    KOp::EkMut(_) => {
                        let canon = model::canonical_public(s, &mutated);
                        if res.flags.get("loaded") != Some(&canon.is_some()) {
                            self.fail(&["C04"], "load-status", what.clone(), format!("{what}: {} bytes, accepted: {:?}", mutated.len(), res.flags.get("loaded")), step);
                        } else if let Some(canon) = canon {
                            // bytes in canonical form are a public key like any other
                            let mut t = vec!["C04"];
                            if canon == mutated {
                                t.push(tag);
                            }
                            if res.out.parts[0] != canon {
                                self.fail(&t, "not-canonical", what.clone(), format!("{what}: {}", diff(&canon, &res.out.parts[0])), step);
                            }
                            let Some(same) = model::public_equal(s, &canon, &self.keys[k].ek) else {
                                self.count("ekmut_same_point");
                                return;
                            };
                            for f in ["ek_eq", "ek_eq_rev"] {
                                if let Some(e) = res.flags.get(f) {
                                    if *e != same {
                                        self.fail(&[tag], "equality-unfaithful", what.clone(), format!("{what}: a public key whose bytes {} compares {}", if same { "are identical" } else { "differ" }, if *e { "equal" } else { "different" }), step);
                                    }
                                }
                            }
                        }
                    }
                    KOp::Drop => {}
                }
            }
            Pend::Mirror { step, op, orig, first, build } => {
                self.checked("C14");
                if res.out != first {
                    let (x, y) = (self.solo(build, &op_for(self.fleet, build, &orig)), self.solo(b, &op));
                    let same_alone = x.is_some() && x == y;
                    if same_alone {
                        self.fail(&["C07"], "depends-on-surroundings", what.clone(), format!("{what}: builds {} and {} agree alone but not here", build.name(), b.name()), step);
                    } else {
                        self.fail(
                            &["C14"],
                            "builds-disagree",
                            format!("{}/{}", opname(&op), what),
                            format!("{} on the same input: build {} gives {}, build {} gives {}", opname(&op), build.name(), first.brief(), b.name(), res.out.brief()),
                            step,
                        );
                    }
                }
            }
            Pend::Rerun { step, op, first, flip } => {
                self.checked("C06");
                match flip {
                    None => {
                        if res.out != first {
                            self.fail(
                                &["C06"],
                                "not-replayable",
                                format!("{}/{}", opname(&op), what),
                                format!("{} replayed from the same entropy: first {}, then {}", opname(&op), first.brief(), res.out.brief()),
                                step,
                            );
                        }
                    }
                    Some(f) => {
                        if res.st != OK {
                            return;
                        }
                        let (a, b) = (expect(&op), expect(&f));
                        if let (Some(a), Some(b)) = (a, b) {
                            for i in 0..a.parts.len().min(res.out.parts.len()) {
                                if a.parts[i] != b.parts[i] && res.out.parts[i] == first.parts[i] {
                                    self.fail(
                                        &["C06"],
                                        "entropy-ignored",
                                        format!("{}/{}", opname(&op), what),
                                        format!("{}: a bit of the drawn entropy changed, output {i} did not", opname(&op)),
                                        step,
                                    );
                                }
                            }
                        }
                    }
                }
            }
            Pend::Special { step } => {
                for (p, kind, site, detail) in res.viol {
                    self.fail(&p, &kind, site, detail, step);
                }
                for (c, n) in res.counts {
                    if let Some(p) = c.strip_prefix("check.") {
                        *self.r.checks.entry(p.to_string()).or_default() += n;
                    } else {
                        *self.r.counts.entry(c).or_default() += n;
                    }
                }
            }
        }
    }

    fn judge_hostile(&mut self, step: usize, b: Build, what: &str, op: &Sop, out: &Outp, panic: &str) {
        let Sop::Hostile { s, dk, bytes, ct, ent } = op else { return };
        let (s, dk) = (*s, *dk);
        self.checked("C04");
        match s {
            0..=2 => self.checked("C03"),
            3 => self.checked("C15"),
            _ => self.checked("C12"),
        }
        let valid = if dk { bytes.len() == model::dk_len(s) } else { model::canonical_public(s, bytes).is_some() };
        let canon = match (s, dk) {
            _ if !valid => vec![],
            (0..=2, true) => model::canonical_dk(model::params(s), bytes),
            (_, true) => bytes.clone(),
            _ => model::canonical_public(s, bytes).unwrap(),
        };
        // what could have been stored must come back as it was
        let mut kept = vec!["C04"];
        if s > 3 || canon == *bytes {
            kept.extend(match s {
                0..=2 => ["C03"],
                3 => ["C15"],
                _ => ["C12"],
            });
        }
        if out.st != OK {
            if out.st != REFUSED || valid {
                let t: &[&str] = if valid { &kept } else { &["C04"] };
                self.fail(t, "hostile-status", what.into(), format!("{what}: {} bytes ({}): {} {panic}", bytes.len(), if valid { "well-formed" } else { "malformed" }, status_name(out.st)), step);
            }
            return;
        }
        if !valid {
            self.fail(&["C04"], "hostile-status", what.into(), format!("{what}: {} malformed bytes were accepted", bytes.len()), step);
            return;
        }
        self.count("hostile_accepted");
        if canon != *bytes {
            self.count("hostile_noncanonical");
        }
        if out.parts[0] != canon {
            self.fail(&kept, "not-canonical", what.into(), format!("{what}: stored back as something other than the value the bytes denote: {}", diff(&canon, &out.parts[0])), step);
        }
        let flags = out.parts.last().unwrap()[0];
        if flags != 7 {
            self.fail(&kept, "reparse-differs", what.into(), format!("{what}: reparsed equal {}, reparsed bytes equal {}, clone equal {}", flags & 1 != 0, flags & 2 != 0, flags & 4 != 0), step);
        }
        // behaves as the value it denotes
        let (mut exp, mut act): (Vec<Option<Vec<u8>>>, Vec<&Vec<u8>>) = (vec![], vec![]);
        if dk {
            let ekv = match s {
                0..=2 => {
                    let n = 384 * model::params(s).k;
                    canon[n..2 * n + 32].to_vec()
                }
                _ => model::xw_public(&canon),
            };
            exp.push(Some(ekv));
            act.push(&out.parts[1]);
            exp.push(model::std_decap(s, &canon, ct));
            act.push(&out.parts[2]);
            exp.push(model::std_decap(s, &canon, &out.parts[4]));
            act.push(&out.parts[3]);
        } else if let Some((c, k, _)) = model::std_encap(s, &canon, &ent.bytes(66 * 1500)) {
            exp.push(Some(c));
            act.push(&out.parts[1]);
            exp.push(Some(k));
            act.push(&out.parts[2]);
        }
        let bad = exp.iter().zip(&act).position(|(e, a)| e.as_ref() != Some(*a));
        if let Some(i) = bad {
            // is it the damage that matters, or is the operation off for canonical bytes as well?
            let c = Sop::Hostile { s, dk, bytes: canon.clone(), ct: ct.clone(), ent: ent.clone() };
            let same = self.solo(b, &c);
            if same.as_ref() == Some(out) && canon != *bytes {
                // the noncanonical and the canonical form behave alike: not about hostile bytes
                return;
            }
            let alone = self.solo(b, op);
            if alone.is_some() && alone.as_ref() != Some(out) {
                self.fail(&["C07"], "depends-on-surroundings", what.into(), format!("{what}: differs from the same operation alone"), step);
                return;
            }
            // (a conforming peer takes exactly the public keys that are in canonical form)
            let peer = s < 4 && canon == *bytes && (s == 3 || !dk);
            self.fail(
                if peer { &["C04", "C13"] } else { &["C04"] },
                "hostile-behaviour",
                what.into(),
                format!("{what}: behaviour {i} differs from the key value the bytes denote: {}", exp[i].as_ref().map_or("(undefined)".into(), |e| diff(e, act[i]))),
                step,
            );
        }
    }
}

/// the same operation for a build that may lack the deterministic / OS entry points
fn op_for(f: &Fleet, b: Build, op: &Sop) -> Sop {
    let Some(i) = f.pristine(b) else { return op.clone() };
    match op {
        Sop::KeyGen { s, draw: Draw::Det, ent } if !i.has_det() => Sop::KeyGen { s: *s, draw: Draw::Rng, ent: ent.clone() },
        Sop::KeyGen { s, draw: Draw::Os(_), ent } if !i.has_os() => {
            Sop::KeyGen { s: *s, draw: Draw::Rng, ent: ent.clone() }
        }
        Sop::Encap { s, ek, det: true, ent } if !i.has_det() => {
            Sop::Encap { s: *s, ek: ek.clone(), det: false, ent: ent.clone() }
        }
        o => o.clone(),
    }
}

fn opname(op: &Sop) -> &'static str {
    match op {
        Sop::KeyGen { .. } => "keygen",
        Sop::Encap { .. } => "encap",
        Sop::Decap { .. } => "decap",
        Sop::Hostile { .. } => "hostile",
    }
}

fn step_of(p: &Pend) -> usize {
    match p {
        Pend::KeyGen { step, .. }
        | Pend::Load { step, .. }
        | Pend::Encap { step, .. }
        | Pend::Decap { step, .. }
        | Pend::Hostile { step, .. }
        | Pend::Key { step, .. }
        | Pend::Mirror { step, .. }
        | Pend::Rerun { step, .. }
        | Pend::Special { step } => *step,
    }
}

pub fn no_entropy() -> Entropy {
    Entropy::new(EntSpec::stream(0), EntFault::default())
}

pub fn diff(want: &[u8], got: &[u8]) -> String {
    if want.len() != got.len() {
        return format!("{} bytes instead of {}", got.len(), want.len());
    }
    match want.iter().zip(got).position(|(a, b)| a != b) {
        None => "identical".into(),
        Some(i) => {
            let n = want.iter().zip(got).filter(|(a, b)| a != b).count();
            let e = (i + 8).min(want.len());
            format!("{n} of {} bytes differ, first at {i}: {} instead of {}", want.len(), hex(&got[i..e]), hex(&want[i..e]))
        }
    }
}
