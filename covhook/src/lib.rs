//! The seams between a node library (real code under test) and the simulator.
//!
//! This crate is linked, uninstrumented, into every node library.  It owns
//!   * the basic-block callback that LLVM inserts into the code under test (preemption points,
//!     the simulated clock and the step budget all hang off it),
//!   * the `syscall` symbol, so that the futex and getrandom calls std / getrandom make on behalf
//!     of the code under test are decided by the simulator and not by the kernel.
//!
//! Exactly one simulated task executes at any time (the simulator parks all others), so plain
//! globals are exact here.
#![allow(static_mut_refs)]
// (`open` takes its mode as a fixed third argument here, which is the same calling convention)
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc)]

use core::arch::asm;

#[repr(C)]
pub struct Host {
    /// The countdown of the running task reached zero at block `guard`.
    pub slow: extern "C" fn(guard: u32),
    /// The running task would block in a futex wait.
    pub blocked: extern "C" fn(),
    /// getrandom(2) issued by the running task: bytes written, or -errno.
    pub os_random: extern "C" fn(buf: *mut u8, len: usize) -> isize,
    /// Caller supplied RNG: 0 ok, 1 entropy source failed.
    pub rng: extern "C" fn(buf: *mut u8, len: usize, kind: u32) -> i32,
    /// Where the next object goes: its distance (0..64) from a 64-byte boundary.
    pub place: extern "C" fn() -> usize,
    /// The running task reached a block the scheduler watches.
    pub watched: extern "C" fn(guard: u32),
    /// The code under test wants memory: 0, or 1 if there is none.
    pub alloc: extern "C" fn(size: usize) -> i32,
    /// The code under test asks for the time: seconds and nanoseconds.
    pub clock: extern "C" fn(which: i32, out: *mut [i64; 2]),
    /// The code under test looks up an environment variable: null, or its value.
    pub env: extern "C" fn(name: *const libc::c_char) -> *const libc::c_char,
    /// The code under test opens a file: 0 to let it, or errno.
    pub open: extern "C" fn() -> i32,
    /// The code under test ends its process.
    pub aborted: extern "C" fn(),
}

#[repr(C)]
pub struct Cov {
    /// Blocks left before `slow` is called.
    pub countdown: i64,
    /// Non-zero while simulated code is running on the calling thread.
    pub active: u64,
    /// Number of instrumented blocks.
    pub nguards: u64,
    /// Allocations made by the code under test and not returned.
    pub live: u64,
    /// Per block: 1 once it ran, `WATCH`.
    pub map: [u8; MAP],
}

pub const MAP: usize = 1 << 16;

/// Flag in `map`: tell the scheduler when this block is reached.
pub const WATCH: u8 = 0x80;

pub static mut HOST: Option<&'static Host> = None;
pub static mut COV: Cov = Cov {
    countdown: i64::MAX,
    active: 0,
    nguards: 0,
    live: 0,
    map: [0; MAP],
};

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        COV.nguards += 1;
        *start = (COV.nguards as usize % MAP) as u32;
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard;
    let m = &mut COV.map[g as usize & (MAP - 1)];
    let w = *m & WATCH != 0;
    *m |= 1;
    COV.countdown -= 1;
    if COV.countdown < 0 {
        slow(g);
    } else if w {
        watched(g);
    }
}

#[cold]
#[inline(never)]
unsafe fn slow(g: u32) {
    if COV.active == 0 {
        COV.countdown = i64::MAX;
        return;
    }
    if let Some(h) = HOST {
        (h.slow)(g)
    }
}

#[cold]
#[inline(never)]
unsafe fn watched(g: u32) {
    if COV.active != 0 {
        if let Some(h) = HOST {
            (h.watched)(g)
        }
    }
}

unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// libc's `syscall`, as seen by everything linked into the node library.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = if COV.active != 0 && n == libc::SYS_futex && HOST.is_some() {
        match b & 0x7f {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET: yield, then report a (legal) spurious wake-up
            0 | 9 => {
                (HOST.unwrap().blocked)();
                0
            }
            // FUTEX_WAKE: nobody ever sleeps in the kernel
            1 | 10 => 0,
            _ => raw_syscall(n, a, b, c, d, e, f),
        }
    } else if n == libc::SYS_getrandom && HOST.is_some() && COV.active != 0 {
        if b == 0 {
            0
        } else {
            (HOST.unwrap().os_random)(a as *mut u8, b as usize) as i64
        }
    } else {
        raw_syscall(n, a, b, c, d, e, f)
    };
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

/// memcmp / bcmp as seen by the code under test: stops at the first difference (as libc's does) and
/// charges the simulated clock for the bytes it looked at.  Volatile reads keep the compiler from
/// turning the loop back into a call to memcmp.
unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    let mut r = 0;
    while i < n {
        let x = core::ptr::read_volatile(a.add(i));
        let y = core::ptr::read_volatile(b.add(i));
        i += 1;
        if x != y {
            r = x as i32 - y as i32;
            break;
        }
    }
    if COV.active != 0 {
        COV.countdown -= (i / 8) as i64;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}

#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}

// ---------------------------------------------------------------------------------------------
// what the code under test might ask its host for: memory, time, environment, files

use core::cell::Cell;
use std::alloc::{GlobalAlloc, Layout, System};

thread_local! {
    /// inside a call into the code under test (and not in the adapter's own bookkeeping)
    static IN: Cell<bool> = const { Cell::new(false) };
}

/// Whether what `f` asks of the host counts as asked by the code under test.
pub fn within<T>(inside: bool, f: impl FnOnce() -> T) -> T {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            IN.with(|i| i.set(self.0));
        }
    }
    let _b = Back(IN.with(|i| i.replace(inside)));
    f()
}

unsafe fn asks() -> Option<&'static Host> {
    if COV.active != 0 && IN.with(|i| i.get()) && !std::thread::panicking() {
        HOST
    } else {
        None
    }
}

pub struct Heap;

/// Where the allocations of the code under test are.
const SLOTS: usize = 1 << 12;
static mut AT: [usize; SLOTS] = [0; SLOTS];
static mut KNOWN: usize = 0;

unsafe fn slot(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (64 - 12)
}

unsafe fn note(p: *mut u8) {
    COV.live += 1;
    if KNOWN < SLOTS / 2 {
        let mut i = slot(p as usize);
        while AT[i] > 1 {
            i = (i + 1) % SLOTS;
        }
        AT[i] = p as usize;
        KNOWN += 1;
    }
}

/// Whether it was one of them.
unsafe fn forget(p: *mut u8) -> bool {
    if KNOWN == 0 {
        return false;
    }
    let mut i = slot(p as usize);
    for _ in 0..SLOTS {
        if AT[i] == 0 {
            return false;
        }
        if AT[i] == p as usize {
            AT[i] = 1;
            KNOWN -= 1;
            COV.live -= 1;
            return true;
        }
        i = (i + 1) % SLOTS;
    }
    false
}

thread_local! {
    /// What was in the memory the code under test gave back on this thread, while somebody collects it.
    static KEPT: core::cell::RefCell<Option<Vec<u8>>> = const { core::cell::RefCell::new(None) };
}

/// From here on: keep what is in the memory that is given back.
pub fn keep() {
    within(false, || KEPT.with(|k| *k.borrow_mut() = Some(Vec::with_capacity(1 << 12))));
}

/// What was.
pub fn kept() -> Vec<u8> {
    within(false, || KEPT.with(|k| k.borrow_mut().take().unwrap_or_default()))
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(h) = asks() else { return System.alloc(l) };
        if (h.alloc)(l.size()) != 0 {
            return core::ptr::null_mut();
        }
        let p = System.alloc(l);
        note(p);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if forget(p) {
            let _ = KEPT.try_with(|k| {
                if let Some(v) = k.try_borrow_mut().ok().as_mut().and_then(|k| k.as_mut()) {
                    if v.len() < 1 << 20 {
                        within(false, || v.extend_from_slice(core::slice::from_raw_parts(p, l.size())));
                    }
                }
            });
        }
        System.dealloc(p, l)
    }
}

#[global_allocator]
static HEAP: Heap = Heap;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(which: i32, t: *mut [i64; 2]) -> i32 {
    match asks() {
        Some(h) => {
            (h.clock)(which, t);
            0
        }
        None => syscall(libc::SYS_clock_gettime, which as i64, t as i64, 0, 0, 0, 0) as i32,
    }
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut [i64; 2], _z: *mut u8) -> i32 {
    let r = clock_gettime(0, t);
    (*t)[1] /= 1000;
    r
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut t = [0; 2];
    clock_gettime(0, &mut t);
    if !out.is_null() {
        *out = t[0];
    }
    t[0]
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *const libc::c_char {
    if let Some(h) = asks() {
        return (h.env)(name);
    }
    type F = unsafe extern "C" fn(*const libc::c_char) -> *const libc::c_char;
    let f = libc::dlsym(libc::RTLD_NEXT, c"getenv".as_ptr());
    if f.is_null() {
        return core::ptr::null();
    }
    core::mem::transmute::<*mut libc::c_void, F>(f)(name)
}

unsafe fn open_at(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if let Some(h) = asks() {
        let e = (h.open)();
        if e != 0 {
            *libc::__errno_location() = e;
            return -1;
        }
    }
    syscall(libc::SYS_openat, dir as i64, path as i64, flags as i64, mode as i64, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open_at(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open_at(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open_at(dir, path, flags, mode)
}

/// Sleeping and yielding are up to the scheduler.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    match HOST {
        Some(h) if COV.active != 0 => (h.blocked)(),
        _ => {
            syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const [i64; 2], left: *mut [i64; 2]) -> i32 {
    match HOST {
        Some(h) if COV.active != 0 => {
            (h.blocked)();
            0
        }
        _ => syscall(libc::SYS_nanosleep, t as i64, left as i64, 0, 0, 0, 0) as i32,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: i32, _f: i32, t: *const [i64; 2], left: *mut [i64; 2]) -> i32 {
    nanosleep(t, left)
}

/// The process under simulation ends; the simulator does not.
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if let (Some(h), true) = (HOST, COV.active != 0) {
        (h.aborted)();
    }
    libc::raise(libc::SIGABRT);
    loop {
        syscall(libc::SYS_exit_group, 134, 0, 0, 0, 0, 0);
    }
}
