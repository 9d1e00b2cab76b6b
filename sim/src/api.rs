//! Calls into a node image, made on the running task.

use crate::ffi::{Image, Out, P};
use crate::kernel::{enter, leave, place};
use crate::model;

pub const OK: i32 = 0;
pub const ENTROPY: i32 = 1;
pub const PANIC: i32 = 2;
pub const REFUSED: i32 = 3;
pub const UNSUPPORTED: i32 = 4;

pub fn status_name(s: i32) -> &'static str {
    match s {
        OK => "ok",
        ENTROPY => "unwound with the entropy failure",
        PANIC => "panicked",
        REFUSED => "refused",
        UNSUPPORTED => "unsupported",
        _ => "?",
    }
}

pub type Img = &'static Image;
unsafe impl Sync for Image {}
unsafe impl Send for Image {}

const NIL: P = core::ptr::null_mut();

fn with_out(cap: usize, f: impl FnOnce(&mut Out) -> i32) -> (i32, Vec<u8>) {
    let mut v = vec![0u8; cap];
    let mut o = Out { ptr: v.as_mut_ptr(), cap, len: 0 };
    let st = f(&mut o);
    v.truncate(o.len);
    if st != OK {
        v.clear();
    }
    (st, v)
}

const BIG: usize = 4096;

/// The bytes of an argument, where the simulator wants them to lie.
struct At {
    v: Vec<u8>,
    off: usize,
    n: usize,
}
impl At {
    fn new(b: &[u8]) -> At {
        let want = place() % 64;
        let mut v = vec![want as u8 ^ 0xa6; b.len() + 128];
        let off = (v.as_ptr() as usize).wrapping_neg() % 64 + want;
        v[off..off + b.len()].copy_from_slice(b);
        At { v, off, n: b.len() }
    }
    fn as_ptr(&self) -> *const u8 {
        self.v[self.off..].as_ptr()
    }
    fn len(&self) -> usize {
        self.n
    }
}

pub fn panic_text(i: Img) -> String {
    let (_, v) = with_out(1024, |o| unsafe {
        (i.f.last_panic)(o);
        OK
    });
    String::from_utf8_lossy(&v).into_owned()
}

pub fn keygen(i: Img, s: u32) -> (i32, usize, usize) {
    let (mut d, mut e) = (NIL, NIL);
    enter(i);
    let st = unsafe { (i.f.keygen)(s, &mut d, &mut e) };
    leave();
    (st, d as usize, e as usize)
}
pub fn keygen_os(i: Img, s: u32, form: u32) -> (i32, usize, usize) {
    let (mut d, mut e) = (NIL, NIL);
    enter(i);
    let st = unsafe { (i.f.keygen_os)(s, form, &mut d, &mut e) };
    leave();
    (st, d as usize, e as usize)
}
pub fn keygen_det(i: Img, s: u32, seed: &[u8]) -> (i32, usize, usize) {
    assert!(seed.len() >= 64);
    let seed = At::new(seed);
    let (mut d, mut e) = (NIL, NIL);
    enter(i);
    let st = unsafe { (i.f.keygen_det)(s, seed.as_ptr(), &mut d, &mut e) };
    leave();
    (st, d as usize, e as usize)
}
pub fn dk_load(i: Img, s: u32, b: &[u8]) -> (i32, usize) {
    let b = At::new(b);
    let mut d = NIL;
    enter(i);
    let st = unsafe { (i.f.dk_load)(s, b.as_ptr(), b.len(), &mut d) };
    leave();
    (st, d as usize)
}
pub fn dk_store(i: Img, s: u32, dk: usize) -> (i32, Vec<u8>) {
    with_out(BIG, |o| {
        enter(i);
        let st = unsafe { (i.f.dk_store)(s, dk as P, o) };
        leave();
        st
    })
}
pub fn dk_ek(i: Img, s: u32, dk: usize) -> (i32, usize) {
    let mut e = NIL;
    enter(i);
    let st = unsafe { (i.f.dk_ek)(s, dk as P, &mut e) };
    leave();
    (st, e as usize)
}
pub fn ek_load(i: Img, s: u32, b: &[u8]) -> (i32, usize) {
    let b = At::new(b);
    let mut e = NIL;
    enter(i);
    let st = unsafe { (i.f.ek_load)(s, b.as_ptr(), b.len(), &mut e) };
    leave();
    (st, e as usize)
}
pub fn ek_store(i: Img, s: u32, ek: usize, form: u32) -> (i32, Vec<u8>) {
    with_out(BIG, |o| {
        enter(i);
        let st = unsafe { (i.f.ek_store)(s, ek as P, form, o) };
        leave();
        st
    })
}
pub fn encap(i: Img, s: u32, ek: usize) -> (i32, Vec<u8>, Vec<u8>) {
    let mut ss = vec![];
    let (st, ct) = with_out(BIG, |o| {
        let (st, v) = with_out(BIG, |k| {
            enter(i);
            let st = unsafe { (i.f.encap)(s, ek as P, o, k) };
            leave();
            st
        });
        ss = v;
        st
    });
    (st, ct, ss)
}
pub fn encap_det(i: Img, s: u32, ek: usize, m: &[u8]) -> (i32, Vec<u8>, Vec<u8>) {
    assert!(m.len() >= 32);
    let m = At::new(m);
    let mut ss = vec![];
    let (st, ct) = with_out(BIG, |o| {
        let (st, v) = with_out(BIG, |k| {
            enter(i);
            let st = unsafe { (i.f.encap_det)(s, ek as P, m.as_ptr(), o, k) };
            leave();
            st
        });
        ss = v;
        st
    });
    (st, ct, ss)
}
pub fn decap(i: Img, s: u32, dk: usize, ct: &[u8]) -> (i32, Vec<u8>) {
    let ct = At::new(ct);
    with_out(BIG, |k| {
        enter(i);
        let st = unsafe { (i.f.decap)(s, dk as P, ct.as_ptr(), ct.len(), k) };
        leave();
        st
    })
}
/// Parse, copy, write; compare with itself, with altered ones and with `other` (if not empty).
pub fn ct_roundtrip(i: Img, s: u32, ct: &[u8], other: &[u8]) -> (i32, Vec<u8>) {
    let (ct, o) = (At::new(ct), At::new(other));
    with_out(BIG, |k| {
        enter(i);
        let st = unsafe { (i.f.ct_roundtrip)(s, ct.as_ptr(), ct.len(), o.as_ptr(), o.len(), k) };
        leave();
        st
    })
}
pub fn dk_clone(i: Img, s: u32, dk: usize) -> (i32, usize) {
    let mut e = NIL;
    enter(i);
    let st = unsafe { (i.f.dk_clone)(s, dk as P, &mut e) };
    leave();
    (st, e as usize)
}
pub fn ek_clone(i: Img, s: u32, ek: usize) -> (i32, usize) {
    let mut e = NIL;
    enter(i);
    let st = unsafe { (i.f.ek_clone)(s, ek as P, &mut e) };
    leave();
    (st, e as usize)
}
pub fn dk_eq(i: Img, s: u32, a: usize, b: usize) -> (i32, bool) {
    let mut v = -1;
    enter(i);
    let st = unsafe { (i.f.dk_eq)(s, a as P, b as P, &mut v) };
    leave();
    (st, v == 1)
}
pub fn ek_eq(i: Img, s: u32, a: usize, b: usize) -> (i32, bool) {
    let mut v = -1;
    enter(i);
    let st = unsafe { (i.f.ek_eq)(s, a as P, b as P, &mut v) };
    leave();
    (st, v == 1)
}
pub fn dk_wipe(i: Img, s: u32, dk: usize) -> i32 {
    enter(i);
    let st = unsafe { (i.f.dk_wipe)(s, dk as P) };
    leave();
    st
}
pub fn rewrap(i: Img, s: u32, dk: &mut usize, ek: &mut usize) -> i32 {
    let (mut d, mut e) = (*dk as P, *ek as P);
    enter(i);
    let st = unsafe { (i.f.rewrap)(s, &mut d, &mut e) };
    leave();
    *dk = d as usize;
    *ek = e as usize;
    st
}
pub fn dk_free(i: Img, s: u32, dk: usize) -> i32 {
    if dk == 0 {
        return OK;
    }
    enter(i);
    let st = unsafe { (i.f.dk_free)(s, dk as P) };
    leave();
    st
}
pub fn ek_free(i: Img, s: u32, ek: usize) -> i32 {
    if ek == 0 {
        return OK;
    }
    enter(i);
    let st = unsafe { (i.f.ek_free)(s, ek as P) };
    leave();
    st
}
pub fn dk_layout(i: Img, s: u32) -> (usize, usize) {
    let (mut a, mut b) = (0, 0);
    enter(i);
    unsafe { (i.f.dk_layout)(s, &mut a, &mut b) };
    leave();
    (a, b)
}
pub fn dk_place(i: Img, s: u32, dk: usize, place: *mut u8) -> i32 {
    enter(i);
    let st = unsafe { (i.f.dk_place)(s, dk as P, place) };
    leave();
    st
}
pub fn dk_drop_in_place(i: Img, s: u32, place: *mut u8) -> i32 {
    enter(i);
    let st = unsafe { (i.f.dk_drop_in_place)(s, place) };
    leave();
    st
}
pub fn dk_scoped(i: Img, s: u32, place: *mut u8, ek: usize) -> i32 {
    enter(i);
    let st = unsafe { (i.f.dk_scoped)(s, place, ek as P) };
    leave();
    st
}
/// What was in the heap memory that went with the last key this task dropped or wiped.
pub fn kept(i: Img) -> Vec<u8> {
    with_out(1 << 16, |o| {
        enter(i);
        let st = unsafe { (i.f.kept)(o) };
        leave();
        st
    })
    .1
}
pub fn ct_place(i: Img, s: u32, ct: &[u8], place: *mut u8) -> (i32, usize) {
    let ct = At::new(ct);
    let mut n = 0;
    enter(i);
    let st = unsafe { (i.f.ct_place)(s, ct.as_ptr(), ct.len(), place, &mut n) };
    leave();
    (st, n)
}
pub fn ct_drop_in_place(i: Img, s: u32, place: *mut u8) -> i32 {
    enter(i);
    let st = unsafe { (i.f.ct_drop_in_place)(s, place) };
    leave();
    st
}

/// Uncompressed / plain public bytes of an encapsulation key object.
pub fn ek_bytes(i: Img, s: u32, ek: usize) -> (i32, Vec<u8>) {
    ek_store(i, s, ek, 0)
}

pub fn stores_dk(s: u32) -> bool {
    !model::is_dh(s)
}
