//! Runs as processes: one forked child per run, several workers, results in index order.

use crate::ffi::{Build, Image};
use crate::kernel::Mark;
use crate::plan::{generate, Plan};
use crate::rng::mix;
use crate::world::{shared_new, Fleet, RunResult, Shared, Violation, World};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

/// Wall-clock limit of one run (a run takes milliseconds; operations are bounded in blocks anyway).
const WALL_MS: i64 = 60_000;

pub fn load_fleet(dir: &str) -> (Fleet, Vec<String>) {
    let mut images = vec![];
    let mut notes = vec![];
    for (b, path, n) in [
        (Build::A, "a/checked", 6),
        (Build::B, "b/release", 6),
        (Build::C, "c/debug", 4),
        (Build::D, "d/release", 4),
        (Build::E, "e/audited", 4),
        (Build::F, "f/relaxed", 4),
        (Build::G, "g/release", 4),
        (Build::H, "h/barely", 4),
    ] {
        let p = format!("{dir}/{path}/libkemnode.so");
        for _ in 0..n {
            match Image::load(&p, b) {
                Ok(i) => images.push(&*Box::leak(Box::new(i))),
                Err(e) => {
                    notes.push(format!("build {} not available: {e}", b.name()));
                    break;
                }
            }
        }
    }
    (Fleet { images }, notes)
}

/// Replace builds that are not there.
pub fn fit(mut p: Plan, f: &Fleet) -> Plan {
    let has = |b: Build| b == Build::Ref || f.images.iter().any(|i| i.build == b);
    let alt = [Build::A, Build::B, Build::F, Build::E, Build::D, Build::G, Build::H, Build::C].into_iter().find(|&b| has(b)).unwrap_or(Build::Ref);
    for b in p.nodes.iter_mut() {
        if !has(*b) {
            *b = alt;
        }
    }
    for s in p.steps.iter_mut() {
        if let crate::plan::Op::Crash { build } = &mut s.op {
            if !has(*build) {
                *build = alt;
            }
        }
    }
    p
}

fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr().cast(), b.len()) };
        if n < 0 {
            if std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
                continue;
            }
            return false;
        }
        b = &b[n as usize..];
    }
    true
}

fn now_ms() -> i64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec * 1000 + t.tv_nsec / 1_000_000
}

pub struct Machinery(pub String);

/// One run in a child process of its own.  What goes wrong only because its hosts are in a bad state
/// is a violation of C20.
pub fn run_isolated(plan: &Plan, fleet: &Fleet, shared: *mut Shared, verbose: bool) -> Result<RunResult, Machinery> {
    let mut r = isolated(plan, fleet, shared, verbose)?;
    if plan.sched.host != 0 && r.violations.iter().any(|v| !v.props.iter().any(|p| p == "C20")) {
        let mut q = plan.clone();
        q.sched.host = 0;
        let calm = isolated(&q, fleet, shared, false)?;
        for v in &mut r.violations {
            if !calm.violations.iter().any(|w| w.kind == v.kind && w.site == v.site) && !v.props.iter().any(|p| p == "C20") {
                v.props.push("C20".into());
                v.props.sort();
            }
        }
    }
    Ok(r)
}

fn isolated(plan: &Plan, fleet: &Fleet, shared: *mut Shared, verbose: bool) -> Result<RunResult, Machinery> {
    for attempt in 0..2 {
        let (v, why) = run_once(plan, fleet, shared, verbose)?;
        let kind = match why {
            Why::Ok => match serde_json::from_slice::<RunResult>(&v) {
                Ok(r) => return Ok(r),
                Err(e) => return Err(Machinery(format!("result: {e}"))),
            },
            Why::Signal(s) => format!("signal {s}"),
            Why::Exit(c) => return Err(Machinery(format!("simulator exited with {c}"))),
            Why::Wall => "did not finish".to_string(),
        };
        if attempt == 0 && why_is_wall(&kind) {
            continue; // an overloaded machine, perhaps
        }
        let m: &Mark = unsafe { &(*shared).mark };
        let text = String::from_utf8_lossy(&m.text[..(m.len as usize).min(256)]).into_owned();
        let step = m.step;
        let (tags, what) = text.split_once(' ').unwrap_or(("", ""));
        let mut props: Vec<String> = tags.split(',').filter(|t| !t.is_empty()).map(String::from).collect();
        props.push("C04".into());
        // does it take company?
        if !why_is_wall(&kind) && (plan.sched.width > 1 || plan.sched.slice != 0 || plan.sched.watch != 0) {
            let mut q = plan.clone();
            q.sched.width = 1;
            q.sched.slice = 0;
            q.sched.watch = 0;
            if matches!(run_once(&q, fleet, shared, false), Ok((_, Why::Ok))) {
                props.push("C07".into());
            }
        }
        props.sort();
        props.dedup();
        let mut r = RunResult::default();
        r.violations.push(Violation {
            props,
            kind: if why_is_wall(&kind) { "stalled".into() } else { "process-died".into() },
            site: what.into(),
            detail: format!("the node process ended with {kind} during {what}"),
            step,
        });
        return Ok(r);
    }
    unreachable!()
}

fn why_is_wall(k: &str) -> bool {
    k.starts_with("did not")
}

enum Why {
    Ok,
    Signal(i32),
    Exit(i32),
    Wall,
}

fn run_once(plan: &Plan, fleet: &Fleet, shared: *mut Shared, verbose: bool) -> Result<(Vec<u8>, Why), Machinery> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return Err(Machinery("pipe".into()));
        }
        (*shared).mark.len = 0;
        let pid = libc::fork();
        if pid < 0 {
            return Err(Machinery("fork".into()));
        }
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            std::panic::set_hook(Box::new(|i| {
                eprintln!("simulator: {i}");
                libc::_exit(99);
            }));
            let r = World::new(plan, fleet, shared, verbose).run();
            let v = serde_json::to_vec(&r).unwrap();
            write_all(p[1], &v);
            libc::_exit(0);
        }
        libc::close(p[1]);
        let end = now_ms() + WALL_MS;
        let mut v = vec![];
        let mut b = vec![0u8; 65536];
        let mut wall = false;
        loop {
            let left = end - now_ms();
            if left <= 0 {
                wall = true;
                break;
            }
            let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut pf, 1, left as i32) <= 0 {
                continue;
            }
            let n = libc::read(p[0], b.as_mut_ptr().cast(), b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        libc::close(p[0]);
        if wall {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let why = if wall {
            Why::Wall
        } else if libc::WIFSIGNALED(st) {
            Why::Signal(libc::WTERMSIG(st))
        } else if libc::WEXITSTATUS(st) != 0 {
            Why::Exit(libc::WEXITSTATUS(st))
        } else {
            Why::Ok
        };
        Ok((v, why))
    }
}

#[derive(Serialize, Deserialize)]
pub struct Line {
    pub i: u64,
    pub seed: u64,
    pub r: Option<RunResult>,
    pub err: Option<String>,
}

#[repr(C)]
struct Ctl {
    next: AtomicU64,
    limit: AtomicI64,
}

pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = mix(base, 0x6b656d);
    for b in prop.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, i)
}

fn cpus() -> Vec<usize> {
    unsafe {
        let mut s: libc::cpu_set_t = core::mem::zeroed();
        if libc::sched_getaffinity(0, core::mem::size_of::<libc::cpu_set_t>(), &mut s) != 0 {
            return vec![];
        }
        (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &s)).collect()
    }
}

pub fn pin(cpu: usize) {
    unsafe {
        let mut s: libc::cpu_set_t = core::mem::zeroed();
        libc::CPU_SET(cpu, &mut s);
        libc::sched_setaffinity(0, core::mem::size_of::<libc::cpu_set_t>(), &s);
    }
}

pub struct Sweep {
    pub results: BTreeMap<u64, (u64, RunResult)>,
    pub errors: Vec<String>,
    pub cov: Vec<Vec<u8>>,
    pub wall: f64,
    pub workers: usize,
}

/// Run indices 0..n of a property.  `hit` says whether a result ends the sweep (later indices are
/// dropped, earlier ones still complete, so that the outcome does not depend on timing).
pub fn sweep(
    fleet: &Fleet,
    base: u64,
    prop: &str,
    n: u64,
    cap_s: f64,
    workers: usize,
    mut hit: impl FnMut(&RunResult) -> bool,
) -> Sweep {
    let t0 = now_ms();
    let cp = cpus();
    let w = if workers > 0 { workers } else { cp.len().clamp(1, 8) };
    let ctl: &Ctl = unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        &*(p as *const Ctl)
    };
    // (a search that starts over starts where the last one ended)
    let from: u64 = std::env::var("KEMSIM_FROM").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    ctl.next.store(from, Ordering::SeqCst);
    ctl.limit.store((from + n) as i64, Ordering::SeqCst);
    let mut fds = vec![];
    let mut pids = vec![];
    let mut shareds = vec![];
    for k in 0..w {
        let sh = shared_new();
        shareds.push(sh);
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(p[0]);
                for f in &fds {
                    libc::close(*f);
                }
                if !cp.is_empty() {
                    pin(cp[k % cp.len()]);
                }
                loop {
                    let i = ctl.next.fetch_add(1, Ordering::SeqCst);
                    if i as i64 >= ctl.limit.load(Ordering::SeqCst) {
                        break;
                    }
                    let seed = run_seed(base, prop, i);
                    let plan = fit(generate(prop, seed), fleet);
                    let line = match run_isolated(&plan, fleet, sh, false) {
                        Ok(r) => Line { i, seed, r: Some(r), err: None },
                        Err(Machinery(e)) => Line { i, seed, r: None, err: Some(e) },
                    };
                    let mut v = serde_json::to_vec(&line).unwrap();
                    v.push(b'\n');
                    if !write_all(p[1], &v) {
                        break;
                    }
                }
                libc::_exit(0);
            }
            libc::close(p[1]);
            fds.push(p[0]);
            pids.push(pid);
        }
    }
    let mut bufs: Vec<Vec<u8>> = vec![vec![]; w];
    let mut open: Vec<bool> = vec![true; w];
    let mut results = BTreeMap::new();
    let mut errors = vec![];
    let mut capped = false;
    while open.iter().any(|&o| o) {
        if !capped && (now_ms() - t0) as f64 / 1000.0 > cap_s {
            capped = true;
            let done = ctl.next.load(Ordering::SeqCst) as i64;
            ctl.limit.fetch_min(done, Ordering::SeqCst);
        }
        let mut pf: Vec<libc::pollfd> = (0..w)
            .map(|k| libc::pollfd { fd: if open[k] { fds[k] } else { -1 }, events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { libc::poll(pf.as_mut_ptr(), w as u64, 200) };
        for k in 0..w {
            if !open[k] || pf[k].revents == 0 {
                continue;
            }
            let mut b = vec![0u8; 1 << 16];
            let n = unsafe { libc::read(fds[k], b.as_mut_ptr().cast(), b.len()) };
            if n <= 0 {
                open[k] = false;
                continue;
            }
            bufs[k].extend_from_slice(&b[..n as usize]);
            while let Some(p) = bufs[k].iter().position(|&c| c == b'\n') {
                let l: Vec<u8> = bufs[k].drain(..=p).collect();
                match serde_json::from_slice::<Line>(&l) {
                    Ok(Line { i, seed, r: Some(r), .. }) => {
                        if hit(&r) {
                            ctl.limit.fetch_min(i as i64, Ordering::SeqCst);
                        }
                        results.insert(i, (seed, r));
                    }
                    Ok(Line { i, seed, err, .. }) => {
                        errors.push(format!("run {i} (seed {seed}): {}", err.unwrap_or_default()))
                    }
                    Err(e) => errors.push(format!("line: {e}")),
                }
            }
        }
    }
    for k in 0..w {
        unsafe {
            libc::close(fds[k]);
            let mut st = 0;
            libc::waitpid(pids[k], &mut st, 0);
        }
    }
    let mut cov = vec![vec![0u8; crate::world::COVN]; crate::ffi::Build::ALL.len()];
    for sh in shareds {
        unsafe {
            for b in 0..cov.len() {
                for (c, s) in cov[b].iter_mut().zip((*sh).cov[b].iter()) {
                    *c |= s;
                }
            }
            libc::munmap(sh.cast(), core::mem::size_of::<Shared>());
        }
    }
    Sweep { results, errors, cov, wall: (now_ms() - t0) as f64 / 1000.0, workers: w }
}

/// Evaluate candidate plans concurrently, results in order.
pub fn evaluate(plans: &[Plan], fleet: &Fleet) -> Vec<Option<RunResult>> {
    let cp = cpus();
    let mut out: Vec<Option<RunResult>> = vec![];
    for (base, chunk) in plans.chunks(cp.len().clamp(1, 8)).enumerate() {
        let _ = base;
        let mut v = vec![];
        for (k, p) in chunk.iter().enumerate() {
            unsafe {
                let mut fd = [0i32; 2];
                assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
                let pid = libc::fork();
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(fd[0]);
                    if !cp.is_empty() {
                        pin(cp[k % cp.len()]);
                    }
                    let sh = shared_new();
                    if let Ok(r) = run_isolated(p, fleet, sh, false) {
                        write_all(fd[1], &serde_json::to_vec(&r).unwrap());
                    }
                    libc::_exit(0);
                }
                libc::close(fd[1]);
                v.push((pid, fd[0]));
            }
        }
        for (pid, fd) in v {
            let mut b = vec![0u8; 65536];
            let mut r = vec![];
            unsafe {
                loop {
                    let n = libc::read(fd, b.as_mut_ptr().cast(), b.len());
                    if n <= 0 {
                        break;
                    }
                    r.extend_from_slice(&b[..n as usize]);
                }
                libc::close(fd);
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
            }
            out.push(serde_json::from_slice(&r).ok());
        }
    }
    out
}
