//! The simulated machine: tasks on real threads of which exactly one runs at a time, a clock that
//! counts executed basic blocks, the entropy sources, and nothing that asks the real world for a
//! decision.

use crate::ffi::{Cov, Host, Image};
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

pub static HOST: Host = Host { slow, blocked, os_random, rng, place, watched, alloc, clock, env, open, aborted };

/// Basic blocks one operation may execute before it counts as not terminating.
pub const STEP_BUDGET: i64 = 40_000_000;
/// An operation that has drawn this many bytes will not stop either (the longest legitimate one is
/// rejection sampling against a source stuck at one byte for a while).
const DRAW_BUDGET: usize = 400_000;

// ---------------------------------------------------------------------------------------------
// entropy

/// What a (simulated) entropy source delivers: a pattern over the first bytes, then a stream.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EntSpec {
    pub seed: u64,
    pub pat: EntPat,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EntPat {
    Stream,
    /// the first n bytes are this value
    Const(u8, u32),
    /// only these bits of the first n bytes are set
    Bits(Vec<u32>, u32),
    /// the first n bytes repeat with this period
    Period(u32, u32),
    /// literal first bytes (hex)
    Lit(String),
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl EntSpec {
    pub fn stream(seed: u64) -> Self {
        EntSpec { seed, pat: EntPat::Stream }
    }
    fn stream_byte(&self, i: usize) -> u8 {
        (mix(self.seed, (i / 8) as u64) >> (8 * (i % 8))) as u8
    }
    pub fn byte(&self, i: usize) -> u8 {
        match &self.pat {
            EntPat::Const(v, n) if i < *n as usize => *v,
            EntPat::Bits(v, n) if i < *n as usize => {
                let mut b = 0;
                for &k in v {
                    if k as usize / 8 == i {
                        b |= 1 << (k % 8);
                    }
                }
                b
            }
            EntPat::Period(p, n) if i < *n as usize => self.stream_byte(i % (*p).max(1) as usize),
            EntPat::Lit(h) if 2 * i + 1 < h.len() => u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0),
            _ => self.stream_byte(i),
        }
    }
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        (0..n).map(|i| self.byte(i)).collect()
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct EntFault {
    /// the source fails at this draw (0-based), having written this much of the request (per mille)
    pub fail: Option<(u32, u32)>,
    /// the caller is suspended at this draw for that long
    pub stall: Option<(u32, u64)>,
    /// at this draw the source itself uses the library (scheme, seed) before it answers
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub nested: Option<(u32, u32, u64)>,
    /// what getrandom(2) does on its n-th call
    pub os: Vec<OsEvent>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OsEvent {
    Ok,
    Eintr,
    Short(u32),
    Eio,
}

#[derive(Clone, Debug, Default)]
pub struct EntLog {
    /// bytes handed out through the caller's RNG
    pub drawn: Vec<u8>,
    pub draws: u32,
    /// bytes handed out by getrandom(2)
    pub os_drawn: Vec<u8>,
    pub os_calls: u32,
    pub failed: bool,
    pub stalled: bool,
    pub os_eintr: u32,
    pub os_short: u32,
    pub nested: bool,
    /// what was wrong with the nested operation
    pub nested_bad: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Entropy {
    pub spec: EntSpec,
    pub fault: EntFault,
    pub log: EntLog,
}
impl Entropy {
    pub fn new(spec: EntSpec, fault: EntFault) -> Self {
        Entropy { spec, fault, log: EntLog::default() }
    }
}

// ---------------------------------------------------------------------------------------------
// tasks

struct Gate(AtomicU32);
impl Gate {
    fn wait(&self) {
        while self.0.swap(0, Ordering::Acquire) == 0 {
            unsafe {
                libc::syscall(libc::SYS_futex, &self.0, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0, 0usize);
            }
        }
    }
    fn open(&self) {
        self.0.store(1, Ordering::Release);
        unsafe {
            libc::syscall(libc::SYS_futex, &self.0, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
        }
    }
}

struct Worker {
    gate: Gate,
    job: std::sync::Mutex<Option<Job>>,
}

pub type Done = Box<dyn std::any::Any + Send>;
pub type Job = Box<dyn FnOnce() -> Done + Send>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    Slice,
    Watched,
    Blocked,
    Stall(u64),
    Aborted,
    Finished,
}

pub struct Task {
    pub id: u32,
    pub label: u64,
    worker: Option<usize>,
    job: Option<Job>,
    cov: *mut Cov,
    img: Option<&'static Image>,
    base: i64,
    left: i64,
    pub blocks: u64,
    call_blocks: u64,
    pub ent: Entropy,
    wake_at: u64,
    prio: u64,
    blocked_run: u32,
    last_guard: u32,
    why: Why,
    done: Option<Done>,
    dead: bool,
    /// watched blocks this call has already been cut at
    cut_at: Vec<u32>,
    calm: bool,
    /// state of the stream of object placements; 0: everything on 64-byte boundaries
    pub place: u64,
    /// how often this task asked for memory and was given none
    starved: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub seed: u64,
    /// how many operations may be in flight at once
    pub width: u32,
    /// mean blocks between preemptions; 0: never preempt
    pub slice: u64,
    /// 0 uniform pick, 1 priorities with occasional changes
    pub mode: u8,
    pub limit: u64,
    /// seed of where objects lie relative to 64-byte boundaries; 0: on them
    #[serde(default)]
    pub place: u64,
    /// one basic block in so many is watched: a task reaching it is cut there, once per call; 0: none
    #[serde(default)]
    pub watch: u64,
    /// which ones
    #[serde(default)]
    pub watch_seed: u64,
    /// the state of the hosts; 0: healthy; else bit 0: no memory to be had, 1: clocks skewed, stopped
    /// and jumping, 2: odd environment, 3: no files can be opened, 4: small stacks; the rest is a seed
    #[serde(default)]
    pub host: u64,
}

#[derive(Default, Clone, Debug)]
pub struct KStats {
    pub preempts: u64,
    /// of which at watched blocks
    pub cuts: u64,
    pub switches: u64,
    pub blocked: u64,
    pub stalls: u64,
    pub max_parallel: u64,
    pub digest: u64,
    /// what the code under test asked of its hosts
    pub asked: Asked,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Asked {
    pub memory: u64,
    pub memory_refused: u64,
    pub time: u64,
    pub env: u64,
    pub files: u64,
}

pub struct Kernel {
    sched: Sched,
    rng: Rng,
    pub clock: u64,
    tasks: Vec<Option<Box<Task>>>,
    run: Vec<usize>,
    wait: std::collections::VecDeque<usize>,
    workers: Vec<Arc<Worker>>,
    idle: Vec<usize>,
    driver: Gate,
    pub stats: KStats,
    last: usize,
    /// where the parent looks to attribute a crash or a stall
    pub mark: *mut Mark,
    pub texts: Vec<(i64, Vec<u8>)>,
    /// nanoseconds the monotonic clock is ahead of the blocks executed
    ahead: u64,
    asks: u64,
}

#[repr(C)]
pub struct Mark {
    pub step: i64,
    pub len: u32,
    pub text: [u8; 256],
}

static mut K: *mut Kernel = core::ptr::null_mut();
static mut CUR: *mut Task = core::ptr::null_mut();
static mut SOLO: bool = false;

pub fn cur() -> &'static mut Task {
    unsafe { &mut *CUR }
}

#[derive(Debug)]
pub enum Event {
    Done(u32, Done, u64, Entropy),
    /// this task exceeded its step budget
    Stuck(u32, u64),
    /// every runnable task is blocked
    Deadlock(Vec<u32>),
    /// this task ended its process because it got no memory
    Aborted(u32),
    Idle,
    Progress,
}

impl Kernel {
    pub fn install(sched: Sched) -> &'static mut Kernel {
        let k = Box::new(Kernel {
            rng: Rng::new(sched.seed),
            sched,
            clock: 0,
            tasks: vec![],
            run: vec![],
            wait: Default::default(),
            workers: vec![],
            idle: vec![],
            driver: Gate(AtomicU32::new(0)),
            stats: KStats::default(),
            last: usize::MAX,
            mark: core::ptr::null_mut(),
            texts: vec![],
            ahead: 0,
            asks: 0,
        });
        unsafe {
            K = Box::into_raw(k);
            &mut *K
        }
    }

    pub fn spawn(&mut self, label: u64, text: (i64, Vec<u8>), ent: Entropy, job: Job) -> u32 {
        self.texts.push(text);
        let id = self.tasks.len() as u32;
        let prio = self.rng.u64();
        self.tasks.push(Some(Box::new(Task {
            id,
            label,
            worker: None,
            job: Some(job),
            cov: core::ptr::null_mut(),
            img: None,
            base: 0,
            left: 0,
            blocks: 0,
            call_blocks: 0,
            ent,
            wake_at: 0,
            prio,
            blocked_run: 0,
            last_guard: 0,
            why: Why::Slice,
            done: None,
            dead: false,
            cut_at: vec![],
            calm: false,
            starved: 0,
            place: if self.sched.place == 0 { 0 } else { mix(self.sched.place, id as u64) | 1 },
        })));
        self.wait.push_back(id as usize);
        id
    }

    /// The task's process is gone: it never runs again.
    pub fn abandon(&mut self, id: u32) {
        let i = id as usize;
        self.run.retain(|&x| x != i);
        self.wait.retain(|&x| x != i);
        if let Some(t) = &mut self.tasks[i] {
            t.dead = true;
        }
    }

    /// Mark the watched blocks of an image.
    pub fn watch(&self, img: &Image) {
        if self.sched.watch == 0 || self.sched.width < 2 {
            return;
        }
        let m = unsafe { &mut (*img.cov).map };
        for (g, b) in m.iter_mut().enumerate().take(img.nguards() + 1) {
            if mix(self.sched.watch_seed, g as u64) % self.sched.watch == 0 {
                *b |= crate::ffi::WATCH;
            }
        }
    }

    pub fn busy(&self) -> bool {
        !self.run.is_empty() || !self.wait.is_empty()
    }

    fn admit(&mut self) {
        while (self.run.len() as u32) < self.sched.width.max(1) {
            let Some(i) = self.wait.pop_front() else { break };
            let w = match self.idle.pop() {
                Some(w) => w,
                None => {
                    let w = Arc::new(Worker { gate: Gate(AtomicU32::new(0)), job: std::sync::Mutex::new(None) });
                    self.workers.push(w.clone());
                    std::thread::Builder::new()
                        .stack_size(if self.sched.host >> 4 & 1 == 1 { SMALL_STACK } else { 8 << 20 })
                        .spawn(move || loop {
                            w.gate.wait();
                            let job = w.job.lock().unwrap().take().unwrap();
                            let d = job();
                            let t = cur();
                            t.done = Some(d);
                            t.why = Why::Finished;
                            unsafe { (*K).driver.open() };
                        })
                        .expect("thread");
                    self.workers.len() - 1
                }
            };
            let t = self.tasks[i].as_mut().unwrap();
            t.worker = Some(w);
            *self.workers[w].job.lock().unwrap() = t.job.take();
            self.run.push(i);
        }
        self.stats.max_parallel = self.stats.max_parallel.max(self.run.len() as u64);
    }

    fn slice_len(&mut self) -> i64 {
        if self.sched.slice == 0 || self.stats.preempts >= self.sched.limit || self.run.len() + self.wait.len() < 2 {
            return STEP_BUDGET;
        }
        // mixture: mostly short, sometimes long, so that both ends of an operation get cut
        let m = if self.rng.chance(0.2) { self.sched.slice * 16 } else { self.sched.slice };
        1 + self.rng.exp(m as f64) as i64
    }

    /// Run one slice of one task.  `horizon`: time of the next external event, if any.
    pub fn step(&mut self, horizon: Option<u64>) -> Event {
        self.admit();
        if self.run.is_empty() {
            return Event::Idle;
        }
        let ready: Vec<usize> =
            self.run.iter().copied().filter(|&i| self.tasks[i].as_ref().unwrap().wake_at <= self.clock).collect();
        if ready.is_empty() {
            let t = self.run.iter().map(|&i| self.tasks[i].as_ref().unwrap().wake_at).min().unwrap();
            if horizon.is_some_and(|h| h <= t) {
                return Event::Idle;
            }
            self.clock = t;
            return Event::Progress;
        }
        // a task that only ever spins on a lock nobody holds any more
        if ready.iter().all(|&i| self.tasks[i].as_ref().unwrap().blocked_run > 200) && ready.len() == self.run.len() {
            return Event::Deadlock(ready.iter().map(|&i| i as u32).collect());
        }
        let i = if ready.len() == 1 {
            ready[0]
        } else {
            let unblocked: Vec<usize> = ready
                .iter()
                .copied()
                .filter(|&i| self.tasks[i].as_ref().unwrap().blocked_run == 0)
                .collect();
            let pool = if unblocked.is_empty() || self.rng.chance(0.1) { &ready } else { &unblocked };
            if self.sched.mode == 1 {
                if self.rng.chance(0.15) {
                    let v = *self.rng.pick(pool);
                    self.tasks[v].as_mut().unwrap().prio = self.rng.u64();
                }
                *pool.iter().max_by_key(|&&i| self.tasks[i].as_ref().unwrap().prio).unwrap()
            } else {
                *self.rng.pick(pool)
            }
        };
        let slice = self.slice_len();
        if self.last != i {
            self.stats.switches += 1;
            if self.last != usize::MAX {
                // an interleaving point: who was cut where, and who got the machine
                let (a, g) = match self.tasks[self.last].as_ref() {
                    Some(t) => (t.label, t.last_guard),
                    None => (0, 0),
                };
                let b = self.tasks[i].as_ref().unwrap().label;
                self.stats.digest = mix(self.stats.digest, mix(a ^ (g as u64) << 32, b));
            }
            self.last = i;
            if let (false, Some((step, t))) = (self.mark.is_null(), self.texts.get(i)) {
                unsafe {
                    let n = t.len().min(256);
                    (&mut (*self.mark).text)[..n].copy_from_slice(&t[..n]);
                    (*self.mark).len = n as u32;
                    (*self.mark).step = *step;
                }
            }
        }
        let t = self.tasks[i].as_mut().unwrap();
        t.left = slice;
        t.base = slice;
        if !t.cov.is_null() {
            // (another task of the same process may have left its own call since)
            unsafe {
                (*t.cov).countdown = slice;
                (*t.cov).active = 1;
            }
        }
        let w = t.worker.unwrap();
        unsafe { CUR = &mut **t };
        self.workers[w].gate.open();
        self.driver.wait();
        unsafe { CUR = core::ptr::null_mut() };
        let t = self.tasks[i].as_mut().unwrap();
        match t.why {
            Why::Finished => {
                let mut t = self.tasks[i].take().unwrap();
                self.run.retain(|&x| x != i);
                self.idle.push(w);
                self.last = usize::MAX;
                self.stats.digest = mix(self.stats.digest, t.label ^ 0xf1);
                Event::Done(t.id, t.done.take().unwrap(), t.blocks, t.ent.clone())
            }
            Why::Slice => {
                t.blocked_run = 0;
                if t.call_blocks as i64 > STEP_BUDGET {
                    return Event::Stuck(t.id, t.call_blocks);
                }
                self.stats.preempts += 1;
                Event::Progress
            }
            Why::Watched => {
                t.blocked_run = 0;
                if self.sched.mode == 1 {
                    // set aside, so that others get to the same place
                    t.prio = self.rng.u64() >> 16;
                }
                self.stats.preempts += 1;
                self.stats.cuts += 1;
                Event::Progress
            }
            Why::Aborted => Event::Aborted(t.id),
            Why::Blocked => {
                t.blocked_run += 1;
                self.stats.blocked += 1;
                Event::Progress
            }
            Why::Stall(ticks) => {
                t.wake_at = self.clock + ticks;
                self.stats.stalls += 1;
                Event::Progress
            }
        }
    }
}

fn park(why: Why) {
    let t = cur();
    t.why = why;
    let w = unsafe { (&(*K).workers)[t.worker.unwrap()].clone() };
    unsafe { (*K).driver.open() };
    w.gate.wait();
}

/// The running task will not be preempted during the next call (unless that call runs away).
pub fn fresh_slice() {
    let t = cur();
    t.left = STEP_BUDGET;
    t.base = STEP_BUDGET;
    t.calm = true;
}

/// Enter code under test on the running task.
pub fn enter(img: &'static Image) {
    let t = cur();
    t.img = Some(img);
    t.call_blocks = 0;
    t.cut_at.clear();
    t.cov = img.cov;
    t.base = t.left;
    unsafe {
        (*t.cov).countdown = t.left;
        (*t.cov).active = 1;
    }
}

pub fn leave() {
    let t = cur();
    unsafe {
        (*t.cov).active = 0;
        t.left = (*t.cov).countdown;
        (*t.cov).countdown = i64::MAX;
    }
    account(t);
    t.calm = false;
    t.cov = core::ptr::null_mut();
}

/// Blocks executed by the last completed call into code under test.
pub fn call_cost() -> u64 {
    cur().call_blocks
}

fn account(t: &mut Task) {
    let n = t.base - t.left;
    t.blocks += n as u64;
    t.call_blocks += n as u64;
    t.base = t.left;
    unsafe {
        if !K.is_null() {
            (*K).clock += n as u64;
        }
    }
}

extern "C" fn slow(guard: u32) {
    let t = cur();
    t.left = unsafe { (*t.cov).countdown };
    account(t);
    t.last_guard = guard;
    if unsafe { SOLO } {
        unsafe { libc::_exit(77) };
    }
    park(Why::Slice);
}

extern "C" fn watched(guard: u32) {
    let t = cur();
    let k = unsafe { &*K };
    if unsafe { SOLO }
        || t.calm
        || k.stats.preempts >= k.sched.limit
        || k.run.len() + k.wait.len() < 2
        || t.cut_at.contains(&guard)
    {
        return;
    }
    t.cut_at.push(guard);
    t.left = unsafe { (*t.cov).countdown };
    account(t);
    t.last_guard = guard;
    park(Why::Watched);
}

extern "C" fn blocked() {
    let t = cur();
    t.left = unsafe { (*t.cov).countdown };
    account(t);
    if unsafe { SOLO } {
        t.blocked_run += 1;
        if t.blocked_run > 1000 {
            unsafe { libc::_exit(78) };
        }
        return;
    }
    park(Why::Blocked);
}

/// Where the next object or buffer goes (modulo 64); the higher bits make other choices of the adapter.
pub extern "C" fn place() -> usize {
    let t = cur();
    if t.place == 0 {
        return 0;
    }
    t.place = mix(t.place, 1) | 1;
    let r = t.place >> 8;
    let off = match r % 4 {
        0 => 0,
        1 => (r >> 8) as usize % 16,
        _ => (r >> 8) as usize % 64,
    };
    off | ((r >> 16) as usize & 0xffff_ffc0)
}

/// The smallest default of a desktop system (a thread on macOS).
const SMALL_STACK: usize = 512 << 10;

// What the code under test asks of its host.  In a healthy one: memory as needed, a clock that counts
// blocks, no environment variable set, files as they are.
fn host(bit: u32) -> Option<u64> {
    unsafe {
        // (an operation run alone for comparison gets a healthy one)
        if SOLO || K.is_null() || (*K).sched.host >> bit & 1 == 0 {
            return None;
        }
        (*K).asks += 1;
        Some(mix((*K).sched.host, (*K).asks))
    }
}

fn asked(f: impl FnOnce(&mut Asked)) {
    unsafe {
        if !K.is_null() {
            f(&mut (*K).stats.asked);
        }
    }
}

extern "C" fn alloc(_size: usize) -> i32 {
    asked(|a| a.memory += 1);
    // (a failing source may allocate its error, which is the source's affair)
    if cur().ent.log.failed || host(0).is_none() {
        return 0;
    }
    asked(|a| a.memory_refused += 1);
    cur().starved += 1;
    1
}

extern "C" fn clock(which: i32, out: *mut [i64; 2]) {
    asked(|a| a.time += 1);
    let (mut now, mut ahead) = (1_000_000_000, 0);
    unsafe {
        if !K.is_null() {
            let t = cur();
            let running = if t.cov.is_null() { 0 } else { (t.base - (*t.cov).countdown).max(0) as u64 };
            now = (*K).clock + running;
            if let Some(r) = host(1) {
                // the next reading is a little, a lot, or enormously later
                (*K).ahead += [0, 0, 1_000_000, 60_000_000_000, 40 * 86_400_000_000_000][(r % 5) as usize];
            }
            ahead = (*K).ahead;
        }
    }
    let t = now + ahead;
    let t = if which != 0 {
        [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64]
    } else {
        // civil time may be anything
        let off = match host(1).map(|r| (r % 5, r >> 8)) {
            None | Some((0, _)) => 1_700_000_000,
            Some((1, _)) => 0,
            Some((2, _)) => -1 - (t / 1_000_000_000) as i64,
            Some((3, _)) => i64::from(u32::MAX),
            Some((_, r)) => (r % 8_000_000_000) as i64,
        };
        [(t / 1_000_000_000) as i64 + off, (t % 1_000_000_000) as i64]
    };
    unsafe { *out = t };
}

extern "C" fn env(name: *const std::ffi::c_char) -> *const std::ffi::c_char {
    asked(|a| a.env += 1);
    let Some(_) = host(2) else { return core::ptr::null() };
    let name = unsafe { std::ffi::CStr::from_ptr(name) };
    let h = unsafe { (*K).sched.host };
    let v: [&std::ffi::CStr; 5] = [c"1", c"0", c"", c"true", c"65536"];
    // (the same answer whenever it is asked)
    match crate::rng::hash_bytes(h, name.to_bytes()) as usize % 6 {
        5 => core::ptr::null(),
        i => v[i].as_ptr(),
    }
}

extern "C" fn open() -> i32 {
    asked(|a| a.files += 1);
    match host(3) {
        None => 0,
        Some(r) => [libc::EMFILE, libc::ENOENT, libc::EACCES][r as usize % 3],
    }
}

extern "C" fn aborted() {
    if cur().starved == 0 {
        return; // goes down like any other crash
    }
    if unsafe { SOLO } {
        unsafe { libc::_exit(79) };
    }
    let t = cur();
    t.left = unsafe { (*t.cov).countdown };
    account(t);
    park(Why::Aborted);
}

extern "C" fn os_random(buf: *mut u8, len: usize) -> isize {
    let e = &mut cur().ent;
    let n = e.log.os_calls as usize;
    e.log.os_calls += 1;
    let give = |e: &mut Entropy, len: usize| {
        let off = e.log.os_drawn.len();
        for i in 0..len {
            let b = e.spec.byte(off + i);
            unsafe { *buf.add(i) = b };
            e.log.os_drawn.push(b);
        }
        len as isize
    };
    if e.log.failed {
        return -(libc::EIO as isize);
    }
    match e.fault.os.get(n).cloned().unwrap_or(OsEvent::Ok) {
        OsEvent::Ok => give(e, len),
        OsEvent::Eintr => {
            e.log.os_eintr += 1;
            -(libc::EINTR as isize)
        }
        OsEvent::Short(k) => {
            let k = (k as usize).clamp(1, len);
            if k < len {
                e.log.os_short += 1;
            }
            give(e, k)
        }
        OsEvent::Eio => {
            e.log.failed = true;
            -(libc::EIO as isize)
        }
    }
}

extern "C" fn rng(buf: *mut u8, len: usize, _kind: u32) -> i32 {
    let t = cur();
    let n = t.ent.log.draws;
    t.ent.log.draws += 1;
    if let Some((d, ticks)) = t.ent.fault.stall {
        if d == n && !unsafe { SOLO } {
            t.ent.log.stalled = true;
            t.left = unsafe { (*t.cov).countdown };
            account(t);
            park(Why::Stall(ticks));
        }
    }
    if let (Some((d, s, seed)), Some(img)) = (t.ent.fault.nested, t.img) {
        if d == n && !unsafe { SOLO } {
            t.left = unsafe { (*t.cov).countdown };
            account(t);
            let saved = (t.cov, t.call_blocks, t.ent.clone());
            let bad = crate::ops::nested(img, s, seed);
            let t = cur();
            (t.cov, t.call_blocks, t.ent) = saved;
            t.img = Some(img);
            t.base = t.left;
            unsafe {
                (*t.cov).countdown = t.left;
                (*t.cov).active = 1;
            }
            t.ent.log.nested = true;
            t.ent.log.nested_bad = bad;
        }
    }
    let t = cur();
    if t.ent.log.drawn.len() > DRAW_BUDGET {
        if unsafe { SOLO } {
            unsafe { libc::_exit(77) };
        }
        t.left = unsafe { (*t.cov).countdown };
        account(t);
        t.call_blocks += 2 * STEP_BUDGET as u64;
        park(Why::Slice);
    }
    let e = &mut cur().ent;
    let off = e.log.drawn.len();
    if let Some((d, part)) = e.fault.fail {
        if n >= d {
            // the source is dead from here on; what it wrote before dying stays in the buffer
            if n == d {
                for i in 0..len * part as usize / 1000 {
                    unsafe { *buf.add(i) = e.spec.byte(off + i) };
                }
            }
            e.log.failed = true;
            return 1;
        }
    }
    for i in 0..len {
        let b = e.spec.byte(off + i);
        unsafe { *buf.add(i) = b };
        e.log.drawn.push(b);
    }
    0
}

// ---------------------------------------------------------------------------------------------
// running something alone, in a fresh process, on a pristine image

/// Fork; in the child run `f` alone (never preempted) and send back what it returns.
/// None: it did not come back (crash, step budget, deadlock).
pub fn solo(ent: Entropy, f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(p[0]);
            SOLO = true;
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(60);
            let mut t = Box::new(Task {
                id: u32::MAX,
                label: 0,
                worker: None,
                job: None,
                cov: core::ptr::null_mut(),
                img: None,
                base: STEP_BUDGET,
                left: STEP_BUDGET,
                blocks: 0,
                call_blocks: 0,
                ent,
                wake_at: 0,
                prio: 0,
                blocked_run: 0,
                last_guard: 0,
                why: Why::Slice,
                done: None,
                dead: false,
                cut_at: vec![],
                calm: true,
                place: 0,
                starved: 0,
            });
            CUR = &mut *t;
            let v = f();
            let mut off = 0;
            while off < v.len() {
                let n = libc::write(p[1], v[off..].as_ptr().cast(), v.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut v = vec![];
        let mut b = [0u8; 8192];
        loop {
            let n = libc::read(p[0], b.as_mut_ptr().cast(), b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        (libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0).then_some(v)
    }
}

