//! Hosts that are not this one: the same code carried out by the Miri interpreter as a machine of
//! another word size or byte order (C14), and as a machine whose scheduler, seeded, may preempt a
//! thread anywhere, in the dependencies as well, and where a data race is an error (C07).
//! A history's outcome must be that of the same history carried out natively by one thread.
use crate::pool::run_seed;
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub host: String,
    /// of the interpreter's scheduler and allocator
    pub machine_seed: u64,
    /// chance of a preemption at a basic block, in thousandths
    pub preempt: u64,
    pub features: String,
    pub crew: usize,
    pub scheme: String,
    pub seed: u64,
    pub steps: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Foreign {
    pub property: String,
    pub foreign: History,
    pub expected: String,
    pub outcome: String,
}

impl History {
    fn line(&self) -> String {
        format!("0 {} {} {} {}\n", self.crew, self.scheme, self.seed, self.steps.join(","))
    }
}

const HOSTS: [(&str, &str); 4] = [
    ("i686-unknown-linux-gnu", "32 bits, little-endian"),
    ("s390x-unknown-linux-gnu", "64 bits, big-endian"),
    ("powerpc-unknown-linux-gnu", "32 bits, big-endian"),
    ("x86_64-unknown-linux-gnu", "64 bits, little-endian"),
];

pub fn draw(prop: &str, run_seed: u64, i: u64) -> History {
    let mut g = Rng::new(mix(run_seed, i));
    let (mut crew, mut preempt) = (1, 0);
    let (host, scheme);
    if prop == "C07" {
        host = if g.below(4) == 0 { HOSTS[1].0 } else { HOSTS[3].0 };
        crew = g.range(2, 3) as usize;
        preempt = [2, 10, 50][g.idx(3)];
        scheme = ["mlkem512", "x25519", "mlkem512", "p256"][i as usize % 4];
    } else {
        host = HOSTS[i as usize % 3].0;
        scheme = ["mlkem512", "xwing", "mlkem1024", "mlkem768", "x25519", "mlkem512", "p256", "xwing"][i as usize / 3 % 8];
    }
    let light = matches!(scheme, "x25519" | "p256");
    let mut steps: Vec<String> = vec!["e".into(), "d".into()];
    let bit = |g: &mut Rng| g.below(1 << 16);
    let extras = if light { 4 } else if crew > 1 || scheme == "xwing" { 0 } else { 1 };
    for _ in 0..extras {
        match g.below(if light { 4 } else { 7 }) {
            0 => steps.extend([format!("x{}", bit(&mut g)), "d".into()]),
            1 => steps.extend([format!("f{}", g.below(32)), "e".into(), "e".into(), "d".into()]),
            2 => steps.extend(["c".into(), "d".into()]),
            3 => steps.extend(["q".into(), "e".into()]),
            4 => steps.extend(["r".into(), "d".into()]),
            5 => steps.extend([format!("b{}", g.below(20_000)), "d".into()]),
            _ => steps.extend([format!("o{}", bit(&mut g)), "e".into()]),
        }
    }
    if !light && extras == 0 && g.below(2) == 0 {
        steps.extend([format!("x{}", bit(&mut g)), "d".into()]);
    }
    let features = if prop == "C07" || g.below(3) > 0 { "full" } else { "plain" };
    History {
        host: host.into(),
        machine_seed: g.below(1 << 31),
        preempt,
        features: features.into(),
        crew,
        scheme: scheme.into(),
        seed: g.u64(),
        steps,
    }
}

fn cargo(root: &str, toolchain: &str) -> Command {
    let mut c = Command::new("cargo");
    c.arg(toolchain)
        .current_dir(format!("{root}/foreign"))
        .env("CARGO_NET_OFFLINE", "true")
        .env("MIRI_SYSROOT", format!("{root}/target/miri-sysroot"))
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("RUSTFLAGS")
        .env_remove("RUSTC_WRAPPER")
        .env_remove("CARGO_TARGET_DIR")
        .stdin(Stdio::null())
        .process_group(0);
    c
}

/// Runs to its end or the deadline: exit status, stdout, stderr.
fn run(mut c: Command, until: Instant) -> Option<(bool, String, String)> {
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().ok()?;
    let (mut o, mut e) = (ch.stdout.take()?, ch.stderr.take()?);
    let read = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        b
    });
    let out = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = o.read_to_end(&mut b);
        b
    });
    let ok = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s.success()),
            Ok(None) if Instant::now() < until => std::thread::sleep(Duration::from_millis(50)),
            _ => {
                unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
                let _ = ch.wait();
                break None;
            }
        }
    };
    let (o, e) = (out.join().ok()?, read.join().ok()?);
    Some((ok?, String::from_utf8_lossy(&o).into(), String::from_utf8_lossy(&e).into()))
}

fn native(root: &str, h: &History) -> Command {
    let mut c = cargo(root, "+stable");
    c.args(["run", "-q", "--release", "--offline", "--locked", "--features", &h.features, "--target-dir"])
        .arg(format!("{root}/target/foreign-{}", h.features));
    c
}

fn interpreted(root: &str, h: &History) -> Command {
    let mut c = cargo(root, "+nightly");
    c.args(["miri", "run", "-q", "--release", "--offline", "--locked", "--features", &h.features, "--target", &h.host, "--target-dir"])
        .arg(format!("{root}/target/foreign-{}-{}", h.features, h.host))
        .env(
            "MIRIFLAGS",
            format!(
                "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks -Zmiri-seed={} -Zmiri-preemption-rate={}",
                h.machine_seed,
                h.preempt as f64 / 1000.0
            ),
        );
    c
}

fn outcome(o: &str) -> String {
    o.lines().find_map(|l| l.strip_prefix("0 ")).unwrap_or_default().to_string()
}

/// What the history comes to natively, carried out by one thread.
fn expected(root: &str, h: &History, file: &str, until: Instant) -> Option<String> {
    let mut c = native(root, h);
    c.args(["--", file, "alone"]);
    let (ok, o, _) = run(c, until)?;
    ok.then(|| outcome(&o)).filter(|o| !o.is_empty())
}

/// ...and interpreted; None without an answer.
fn interpret(root: &str, h: &History, file: &str, until: Instant) -> Option<String> {
    let mut c = interpreted(root, h);
    c.args(["--", file]);
    let (ok, o, e) = run(c, until)?;
    if ok {
        return Some(outcome(&o)).filter(|o| !o.is_empty());
    }
    // the machine stopped the program: a race, a deadlock, an access outside any object
    e.lines()
        .find(|l| l.starts_with("error: Undefined Behavior") || l.contains("evaluated program deadlocked") || l.starts_with("error: deadlock"))
        .map(|l| format!("stopped: {l}"))
}

/// Expected and interpreted outcome of one history.
pub fn carry_out(root: &str, h: &History, until: Instant) -> Option<(String, String)> {
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = format!("{root}/target/foreign-histories");
    std::fs::create_dir_all(&dir).ok()?;
    let file = format!("{dir}/{}-{}", std::process::id(), N.fetch_add(1, SeqCst));
    std::fs::write(&file, h.line()).ok()?;
    let r = expected(root, h, &file, until).and_then(|x| Some((x, interpret(root, h, &file, until)?)));
    let _ = std::fs::remove_file(&file);
    r
}

#[derive(Default)]
pub struct Explored {
    pub done: BTreeMap<u64, History>,
    pub unfinished: u64,
    pub notes: Vec<String>,
    pub found: Option<Foreign>,
    pub wall: f64,
}

impl Explored {
    pub fn evidence(&self) -> Value {
        let mut hosts: BTreeMap<String, u64> = BTreeMap::new();
        let mut steps: BTreeMap<String, u64> = BTreeMap::new();
        for h in self.done.values() {
            let what = HOSTS.iter().find(|x| x.0 == h.host).map(|x| x.1).unwrap_or("");
            *hosts.entry(format!("{} ({what})", h.host)).or_default() += 1;
            for s in &h.steps {
                let what = match s.as_bytes()[0] {
                    b'e' => "encapsulate",
                    b'd' => "decapsulate",
                    b'x' => "ciphertext bit flipped",
                    b'r' => "private key restored",
                    b'b' => "private key damaged in storage",
                    b'c' => "private key cloned",
                    b'q' => "public key restored",
                    b'o' => "public key with oversized coefficients",
                    b'f' => "random source runs dry",
                    _ => "other",
                };
                *steps.entry(what.into()).or_default() += h.crew as u64;
            }
        }
        json!({"what": "histories carried out by the Miri interpreter (real code of the repository and of its dependencies, seeded scheduler and allocator, virtual clock), outcome equal to the same history carried out natively by one thread",
            "histories": self.done.len(), "unfinished_at_deadline": self.unfinished, "hosts": hosts, "steps": steps,
            "threads_up_to": self.done.values().map(|h| h.crew).max().unwrap_or(0),
            "machine_seeds": self.done.values().map(|h| h.machine_seed).collect::<std::collections::BTreeSet<_>>().len(),
            "wall_seconds": self.wall, "notes": self.notes})
    }
}

pub fn explore(root: &str, prop: &str, seed: u64, secs: f64) -> Explored {
    let t0 = Instant::now();
    let until = t0 + Duration::from_secs_f64(secs);
    let mut r = Explored::default();
    let hosts: Vec<&str> = if prop == "C07" { vec![HOSTS[3].0, HOSTS[1].0] } else { HOSTS[..3].iter().map(|h| h.0).collect() };
    // sysroots one after the other (they share a directory), then the images
    for h in &hosts {
        let mut c = cargo(root, "+nightly");
        c.args(["miri", "setup", "--target", h]);
        match run(c, until) {
            Some((true, ..)) => {}
            Some((_, _, e)) => r.notes.push(format!("no interpreter for {h}: {}", e.lines().last().unwrap_or(""))),
            None => r.notes.push(format!("no interpreter for {h} in time")),
        }
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let shared = Mutex::new(&mut r);
    std::thread::scope(|s| {
        for w in 0..8 {
            let (next, stop, shared) = (&next, &stop, &shared);
            s.spawn(move || {
                std::thread::sleep(Duration::from_millis(w * 300));
                while !stop.load(SeqCst) && Instant::now() < until {
                    let i = next.fetch_add(1, SeqCst);
                    let h = draw(prop, run_seed(seed, prop, 0), i);
                    let c = carry_out(root, &h, until);
                    let mut r = shared.lock().unwrap();
                    match c {
                        Some((x, y)) if x == y => {
                            r.done.insert(i, h);
                        }
                        Some((expected, outcome)) => {
                            stop.store(true, SeqCst);
                            if r.found.is_none() {
                                r.found = Some(Foreign { property: prop.into(), foreign: h, expected, outcome });
                            }
                        }
                        None => r.unfinished += 1,
                    }
                }
            });
        }
    });
    r.wall = t0.elapsed().as_secs_f64();
    r
}

/// Fewer steps with the same kind of failure.
pub fn shrink(root: &str, f: &Foreign, secs: f64) -> Foreign {
    let until = Instant::now() + Duration::from_secs_f64(secs);
    let mut best = f.clone();
    let fails = |h: &History| {
        carry_out(root, h, until)
            .filter(|(x, y)| x != y && x.contains("stopped") == f.outcome.contains("stopped"))
            .map(|(expected, outcome)| Foreign { property: f.property.clone(), foreign: h.clone(), expected, outcome })
    };
    let mut i = best.foreign.steps.len();
    while i > 0 && Instant::now() < until {
        i -= 1;
        if best.foreign.steps.len() < 2 {
            break;
        }
        let mut h = best.foreign.clone();
        h.steps.remove(i);
        if let Some(b) = fails(&h) {
            best = b;
        }
    }
    best
}

/// The first words in which the two outcomes differ.
pub fn difference(f: &Foreign) -> String {
    if f.outcome.starts_with("stopped") {
        return f.outcome.clone();
    }
    let (a, b): (Vec<_>, Vec<_>) = (f.expected.split(' ').collect(), f.outcome.split(' ').collect());
    let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("`{}` instead of `{}`", b.get(i).unwrap_or(&"nothing"), a.get(i).unwrap_or(&"nothing"))
}
