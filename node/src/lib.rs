//! C ABI around the public API of the repository's crates: one "node image".
//! Everything here is a thin, mechanical adapter; all decisions are the simulator's.
#![allow(clippy::missing_safety_doc)]
#![allow(static_mut_refs)]

use covhook::{within, Cov, Host, COV, HOST};
use kem::{Decapsulate, Encapsulate};
use rand_core::{CryptoRng, RngCore};
use std::fmt::Debug;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------------------------------------
// entropy seam

/// The RNG handed to the code under test.  Every draw goes to the simulator.
pub struct NodeRng;

/// Payload with which the simulated entropy source unwinds when it fails.
struct EntropyFailure;

impl NodeRng {
    fn draw(buf: &mut [u8], kind: u32) -> bool {
        let h = unsafe { HOST.expect("host") };
        (h.rng)(buf.as_mut_ptr(), buf.len(), kind) == 0
    }
}

impl RngCore for NodeRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        if !Self::draw(&mut b, 2) {
            resume_unwind(Box::new(EntropyFailure));
        }
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        if !Self::draw(&mut b, 3) {
            resume_unwind(Box::new(EntropyFailure));
        }
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if !Self::draw(dest, 0) {
            resume_unwind(Box::new(EntropyFailure));
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        if Self::draw(dest, 1) {
            Ok(())
        } else {
            // a code of the source's own, or one of the operating system's
            let code = [rand_core::Error::CUSTOM_START + 7, 5, 4, 11, 12, rand_core::Error::INTERNAL_START + 3]
                [(unsafe { HOST.expect("host") }.place)() % 6];
            Err(within(false, || rand_core::Error::from(core::num::NonZeroU32::new(code).unwrap())))
        }
    }
}
impl CryptoRng for NodeRng {}

// ---------------------------------------------------------------------------------------------
// status codes and buffers

pub const OK: i32 = 0;
/// Unwound with the entropy source's own failure.
pub const ENTROPY: i32 = 1;
/// Unwound with any other panic.
pub const PANIC: i32 = 2;
/// The operation returned Err / the parser refused the bytes.
pub const REFUSED: i32 = 3;
/// This build does not offer the operation.
pub const UNSUPPORTED: i32 = 4;

#[repr(C)]
pub struct Out {
    pub ptr: *mut u8,
    pub cap: usize,
    pub len: usize,
}

impl Out {
    unsafe fn put(&mut self, b: &[u8]) {
        assert!(b.len() <= self.cap, "adapter buffer too small");
        core::ptr::copy_nonoverlapping(b.as_ptr(), self.ptr, b.len());
        self.len = b.len();
    }
}

static mut LAST_PANIC: [u8; 512] = [0; 512];
static mut LAST_PANIC_LEN: usize = 0;

/// The adapter's own copies of what the code under test returns.
trait Own {
    fn own(&self) -> Vec<u8>;
}
impl Own for [u8] {
    fn own(&self) -> Vec<u8> {
        within(false, || self.to_vec())
    }
}

fn run(f: impl FnOnce() -> i32) -> i32 {
    match within(true, || catch_unwind(AssertUnwindSafe(f))) {
        Ok(s) => s,
        Err(p) => {
            if p.is::<EntropyFailure>() {
                ENTROPY
            } else {
                PANIC
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// schemes

enum R<T> {
    Ok(T),
    Refused,
    Unsupported,
}

fn res<T, E: Debug>(r: Result<T, E>) -> R<T> {
    match r {
        Ok(v) => R::Ok(v),
        Err(_) => R::Refused,
    }
}

trait Scheme {
    type Dk;
    type Ek;
    fn keygen(r: &mut NodeRng) -> (Self::Dk, Self::Ek);
    fn keygen_os(_form: u32) -> R<(Self::Dk, Self::Ek)> {
        R::Unsupported
    }
    fn keygen_det(_d: &[u8], _z: &[u8]) -> R<(Self::Dk, Self::Ek)> {
        R::Unsupported
    }
    fn dk_load(_b: &[u8]) -> R<Self::Dk> {
        R::Unsupported
    }
    fn dk_store(_k: &Self::Dk) -> R<Vec<u8>> {
        R::Unsupported
    }
    fn dk_ek(_k: &Self::Dk) -> R<Self::Ek> {
        R::Unsupported
    }
    fn ek_load(b: &[u8]) -> R<Self::Ek>;
    fn ek_store(k: &Self::Ek, form: u32) -> R<Vec<u8>>;
    fn encap(k: &Self::Ek, r: &mut NodeRng) -> R<(Vec<u8>, Vec<u8>)>;
    fn encap_det(_k: &Self::Ek, _m: &[u8]) -> R<(Vec<u8>, Vec<u8>)> {
        R::Unsupported
    }
    fn decap(k: &Self::Dk, ct: &[u8]) -> R<Vec<u8>>;
    fn ct_roundtrip(_ct: &[u8], _other: &[u8]) -> R<Vec<u8>> {
        R::Unsupported
    }
    fn dk_clone(_k: &Self::Dk) -> R<Self::Dk> {
        R::Unsupported
    }
    fn ek_clone(_k: &Self::Ek) -> R<Self::Ek> {
        R::Unsupported
    }
    fn dk_eq(_a: &Self::Dk, _b: &Self::Dk) -> R<bool> {
        R::Unsupported
    }
    fn ek_eq(_a: &Self::Ek, _b: &Self::Ek) -> R<bool> {
        R::Unsupported
    }
    fn dk_wipe(_k: &mut Self::Dk) -> R<()> {
        R::Unsupported
    }
    /// Unwrap and rewrap through the newtype accessors, where there are any.
    fn dk_rewrap(k: Self::Dk) -> Self::Dk {
        k
    }
    fn ek_rewrap(k: Self::Ek) -> Self::Ek {
        k
    }
}

/// A number of the simulator's choosing (0 in runs that do not vary placement).
fn place() -> usize {
    (unsafe { HOST.expect("host") }.place)()
}

#[cfg(feature = "dh_small")]
fn hash_of<T: core::hash::Hash>(v: &T) -> u64 {
    use core::hash::Hasher;
    #[allow(deprecated)]
    let mut h = core::hash::SipHasher::new();
    v.hash(&mut h);
    h.finish()
}

#[cfg(feature = "mlkem")]
mod mlkem {
    use super::*;
    use ml_kem::kem::{DecapsulationKey, EncapsulationKey};
    use ml_kem::{Ciphertext, Encoded, EncodedSizeUser, KemCore};

    macro_rules! mlkem_scheme {
        ($name:ident, $kem:ty, $params:ty) => {
            pub struct $name;
            impl Scheme for $name {
                type Dk = DecapsulationKey<$params>;
                type Ek = EncapsulationKey<$params>;
                fn keygen(r: &mut NodeRng) -> (Self::Dk, Self::Ek) {
                    <$kem>::generate(r)
                }
                #[cfg(feature = "mlkem_det")]
                fn keygen_det(d: &[u8], z: &[u8]) -> R<(Self::Dk, Self::Ek)> {
                    let d = <&ml_kem::B32>::try_from(d).unwrap();
                    let z = <&ml_kem::B32>::try_from(z).unwrap();
                    R::Ok(<$kem>::generate_deterministic(d, z))
                }
                fn dk_load(b: &[u8]) -> R<Self::Dk> {
                    match <&Encoded<Self::Dk>>::try_from(b) {
                        Ok(e) => R::Ok(Self::Dk::from_bytes(e)),
                        Err(_) => R::Refused,
                    }
                }
                fn dk_store(k: &Self::Dk) -> R<Vec<u8>> {
                    R::Ok(k.as_bytes().own())
                }
                fn dk_ek(k: &Self::Dk) -> R<Self::Ek> {
                    R::Ok(k.encapsulation_key().clone())
                }
                fn ek_load(b: &[u8]) -> R<Self::Ek> {
                    match <&Encoded<Self::Ek>>::try_from(b) {
                        Ok(e) => R::Ok(Self::Ek::from_bytes(e)),
                        Err(_) => R::Refused,
                    }
                }
                fn ek_store(k: &Self::Ek, _form: u32) -> R<Vec<u8>> {
                    R::Ok(k.as_bytes().own())
                }
                fn encap(k: &Self::Ek, r: &mut NodeRng) -> R<(Vec<u8>, Vec<u8>)> {
                    match k.encapsulate(r) {
                        Ok((c, s)) => R::Ok((c.own(), s.own())),
                        Err(_) => R::Refused,
                    }
                }
                #[cfg(feature = "mlkem_det")]
                fn encap_det(k: &Self::Ek, m: &[u8]) -> R<(Vec<u8>, Vec<u8>)> {
                    use ml_kem::EncapsulateDeterministic;
                    let m = <&ml_kem::B32>::try_from(m).unwrap();
                    match k.encapsulate_deterministic(m) {
                        Ok((c, s)) => R::Ok((c.own(), s.own())),
                        Err(_) => R::Refused,
                    }
                }
                fn decap(k: &Self::Dk, ct: &[u8]) -> R<Vec<u8>> {
                    match <&Ciphertext<$kem>>::try_from(ct) {
                        Ok(c) => match res(k.decapsulate(c)) {
                            R::Ok(s) => R::Ok(s.own()),
                            _ => R::Refused,
                        },
                        Err(_) => R::Refused,
                    }
                }
                fn dk_clone(k: &Self::Dk) -> R<Self::Dk> {
                    R::Ok(k.clone())
                }
                fn ek_clone(k: &Self::Ek) -> R<Self::Ek> {
                    R::Ok(k.clone())
                }
                fn dk_eq(a: &Self::Dk, b: &Self::Dk) -> R<bool> {
                    R::Ok(a == b)
                }
                fn ek_eq(a: &Self::Ek, b: &Self::Ek) -> R<bool> {
                    R::Ok(a == b)
                }
            }
        };
    }
    mlkem_scheme!(M512, ml_kem::MlKem512, ml_kem::MlKem512Params);
    mlkem_scheme!(M768, ml_kem::MlKem768, ml_kem::MlKem768Params);
    mlkem_scheme!(M1024, ml_kem::MlKem1024, ml_kem::MlKem1024Params);
}

#[cfg(feature = "xwing")]
mod xw {
    use super::*;
    use x_wing::*;

    fn x_value(ct: &[u8; CIPHERTEXT_SIZE]) -> u64 {
        let mut b = [0; 32];
        b.copy_from_slice(&ct[1088..]);
        hash_of(&x25519::PublicKey::from(b))
    }

    pub struct XWing;
    impl Scheme for XWing {
        type Dk = DecapsulationKey;
        type Ek = EncapsulationKey;
        fn keygen(r: &mut NodeRng) -> (Self::Dk, Self::Ek) {
            if place() & 64 == 0 {
                generate_key_pair(r)
            } else {
                let dk = DecapsulationKey::generate(r);
                let ek = dk.encapsulation_key();
                (dk, ek)
            }
        }
        #[cfg(feature = "os_rng")]
        fn keygen_os(form: u32) -> R<(Self::Dk, Self::Ek)> {
            if form == 0 {
                R::Ok(generate_key_pair_from_os_rng())
            } else {
                let dk = DecapsulationKey::generate_from_os_rng();
                let ek = dk.encapsulation_key();
                R::Ok((dk, ek))
            }
        }
        fn dk_load(b: &[u8]) -> R<Self::Dk> {
            match <[u8; DECAPSULATION_KEY_SIZE]>::try_from(b) {
                Ok(a) => R::Ok(DecapsulationKey::from(a)),
                Err(_) => R::Refused,
            }
        }
        fn dk_store(k: &Self::Dk) -> R<Vec<u8>> {
            R::Ok(k.as_bytes().own())
        }
        fn dk_ek(k: &Self::Dk) -> R<Self::Ek> {
            R::Ok(k.encapsulation_key())
        }
        fn ek_load(b: &[u8]) -> R<Self::Ek> {
            match <&[u8; ENCAPSULATION_KEY_SIZE]>::try_from(b) {
                Ok(a) => R::Ok(EncapsulationKey::from(a)),
                Err(_) => R::Refused,
            }
        }
        fn ek_store(k: &Self::Ek, _form: u32) -> R<Vec<u8>> {
            R::Ok(k.as_bytes().own())
        }
        fn encap(k: &Self::Ek, r: &mut NodeRng) -> R<(Vec<u8>, Vec<u8>)> {
            match k.encapsulate(r) {
                Ok((c, s)) => R::Ok((c.as_bytes().own(), s.own())),
                Err(_) => R::Refused,
            }
        }
        fn decap(k: &Self::Dk, ct: &[u8]) -> R<Vec<u8>> {
            match <&[u8; CIPHERTEXT_SIZE]>::try_from(ct) {
                Ok(c) => match res(k.decapsulate(&Put::new(Ciphertext::from(c)))) {
                    R::Ok(s) => R::Ok(s.own()),
                    _ => R::Refused,
                },
                Err(_) => R::Refused,
            }
        }
        fn ct_roundtrip(ct: &[u8], other: &[u8]) -> R<Vec<u8>> {
            match <&[u8; CIPHERTEXT_SIZE]>::try_from(ct) {
                Ok(c) => {
                    let o = Put::new(Ciphertext::from(c));
                    let k = o.clone();
                    // one bit changed, or the same bits in two places
                    let mut b = *c;
                    let (i, j, m) = (place() >> 6, place() >> 6, place() >> 6);
                    let m = if m & 1 == 0 { 1 << (m >> 1 & 7) } else { (m >> 1) as u8 | 1 };
                    let i = i % CIPHERTEXT_SIZE;
                    b[i] ^= m;
                    if j & 1 == 1 {
                        b[(i + (1 << (j >> 1 & 7))) % CIPHERTEXT_SIZE] ^= m;
                    }
                    let differ = |b: &[u8; CIPHERTEXT_SIZE]| {
                        let n = Put::new(Ciphertext::from(b));
                        // (a few encodings of the X25519 part denote the same point: not judged)
                        let same_point = b[1088..] != c[1088..] && x_value(b) == x_value(c);
                        same_point || b == c || *o != *n && *n != k
                    };
                    let bad = *o != k || o.eq(&o) == o.ne(&o) || !differ(&b) || other.try_into().is_ok_and(|b| !differ(b));
                    R::Ok(if bad { b"equality".own() } else { k.as_bytes().own() })
                }
                Err(_) => R::Refused,
            }
        }
        fn dk_clone(k: &Self::Dk) -> R<Self::Dk> {
            R::Ok(k.clone())
        }
        fn ek_clone(k: &Self::Ek) -> R<Self::Ek> {
            R::Ok(k.clone())
        }
        fn ek_eq(a: &Self::Ek, b: &Self::Ek) -> R<bool> {
            R::Ok(a == b)
        }
    }
}

#[cfg(feature = "dh_small")]
mod dh {
    use super::*;
    use dhkem::{DhDecapsulator, DhEncapsulator, DhKem};

    pub struct X25519;
    impl Scheme for X25519 {
        type Dk = <dhkem::X25519Kem as DhKem>::DecapsulatingKey;
        type Ek = <dhkem::X25519Kem as DhKem>::EncapsulatingKey;
        fn keygen(r: &mut NodeRng) -> (Self::Dk, Self::Ek) {
            dhkem::X25519Kem::random_keypair(r)
        }
        fn ek_load(b: &[u8]) -> R<Self::Ek> {
            match <[u8; 32]>::try_from(b) {
                Ok(a) => R::Ok(DhEncapsulator::from(x25519::PublicKey::from(a))),
                Err(_) => R::Refused,
            }
        }
        fn ek_store(k: &Self::Ek, form: u32) -> R<Vec<u8>> {
            R::Ok(match form {
                0 => k.as_ref().as_bytes().own(),
                _ => k.clone().into_inner().as_bytes().own(),
            })
        }
        fn encap(k: &Self::Ek, r: &mut NodeRng) -> R<(Vec<u8>, Vec<u8>)> {
            match k.encapsulate(r) {
                Ok((c, s)) => R::Ok((c.as_bytes().own(), s.as_bytes().own())),
                Err(_) => R::Refused,
            }
        }
        fn decap(k: &Self::Dk, ct: &[u8]) -> R<Vec<u8>> {
            match <[u8; 32]>::try_from(ct) {
                Ok(c) => match res(k.decapsulate(&Put::new(x25519::PublicKey::from(c)))) {
                    R::Ok(s) => R::Ok(s.as_bytes().own()),
                    _ => R::Refused,
                },
                Err(_) => R::Refused,
            }
        }
        fn dk_clone(k: &Self::Dk) -> R<Self::Dk> {
            R::Ok(k.clone())
        }
        fn ek_clone(k: &Self::Ek) -> R<Self::Ek> {
            R::Ok(k.clone())
        }
        fn ek_eq(a: &Self::Ek, b: &Self::Ek) -> R<bool> {
            let e = a == b;
            // keys in hash maps: equal ones must hash alike, others practically never do
            let same = e == (hash_of(a) == hash_of(b)) && e == (b == a) && e != (a != b);
            R::Ok(e == same)
        }
        fn dk_rewrap(k: Self::Dk) -> Self::Dk {
            DhDecapsulator::from(k.into_inner())
        }
        fn ek_rewrap(k: Self::Ek) -> Self::Ek {
            DhEncapsulator::from(k.into_inner())
        }
        #[cfg(feature = "dh_wipe")]
        fn dk_wipe(k: &mut Self::Dk) -> R<()> {
            use zeroize::Zeroize;
            k.zeroize();
            R::Ok(())
        }
    }

    macro_rules! ec_scheme {
        ($name:ident, $kem:ty, $curve:ty) => {
            pub struct $name;
            impl Scheme for $name {
                type Dk = <$kem as DhKem>::DecapsulatingKey;
                type Ek = <$kem as DhKem>::EncapsulatingKey;
                fn keygen(r: &mut NodeRng) -> (Self::Dk, Self::Ek) {
                    <$kem>::random_keypair(r)
                }
                fn ek_load(b: &[u8]) -> R<Self::Ek> {
                    match elliptic_curve::PublicKey::<$curve>::from_sec1_bytes(b) {
                        Ok(p) => R::Ok(DhEncapsulator::from(p)),
                        Err(_) => R::Refused,
                    }
                }
                fn ek_store(k: &Self::Ek, form: u32) -> R<Vec<u8>> {
                    use elliptic_curve::sec1::ToEncodedPoint;
                    R::Ok(match form {
                        0 => k.to_encoded_point(false).as_bytes().own(),
                        1 => k.to_encoded_point(true).as_bytes().own(),
                        2 => k.as_ref().to_encoded_point(false).as_bytes().own(),
                        _ => k.clone().into_inner().to_encoded_point(false).as_bytes().own(),
                    })
                }
                fn encap(k: &Self::Ek, r: &mut NodeRng) -> R<(Vec<u8>, Vec<u8>)> {
                    use elliptic_curve::sec1::ToEncodedPoint;
                    match k.encapsulate(r) {
                        Ok((c, s)) => R::Ok((
                            c.to_encoded_point(false).as_bytes().own(),
                            s.raw_secret_bytes().own(),
                        )),
                        Err(_) => R::Refused,
                    }
                }
                fn decap(k: &Self::Dk, ct: &[u8]) -> R<Vec<u8>> {
                    match elliptic_curve::PublicKey::<$curve>::from_sec1_bytes(ct) {
                        Ok(c) => match res(k.decapsulate(&c)) {
                            R::Ok(s) => R::Ok(s.raw_secret_bytes().own()),
                            _ => R::Refused,
                        },
                        Err(_) => R::Refused,
                    }
                }
                fn ek_clone(k: &Self::Ek) -> R<Self::Ek> {
                    R::Ok(k.clone())
                }
                fn ek_eq(a: &Self::Ek, b: &Self::Ek) -> R<bool> {
                    use core::cmp::Ordering::*;
                    let e = a == b;
                    // keys in ordered maps
                    let o = a.cmp(b);
                    let same = e == (o == Equal)
                        && b.cmp(a) == o.reverse()
                        && a.partial_cmp(b) == Some(o)
                        && (a < b) == (o == Less)
                        && e == (b == a)
                        && e != (a != b);
                    R::Ok(e == same)
                }
                fn dk_rewrap(k: Self::Dk) -> Self::Dk {
                    DhDecapsulator::from(k.into_inner())
                }
                fn ek_rewrap(k: Self::Ek) -> Self::Ek {
                    DhEncapsulator::from(k.into_inner())
                }
            }
        };
    }
    ec_scheme!(P256, dhkem::NistP256Kem, p256::NistP256);
    #[cfg(feature = "dh_big")]
    ec_scheme!(P384, dhkem::NistP384Kem, p384::NistP384);
    #[cfg(feature = "dh_big")]
    ec_scheme!(P521, dhkem::NistP521Kem, p521::NistP521);
    #[cfg(feature = "dh_big")]
    ec_scheme!(K256, dhkem::Secp256k1Kem, k256::Secp256k1);
}

// ---------------------------------------------------------------------------------------------
// dispatch

macro_rules! dispatch {
    ($s:expr, $S:ident => $e:expr) => {
        match $s {
            #[cfg(feature = "mlkem")]
            0 => { type $S = mlkem::M512; $e }
            #[cfg(feature = "mlkem")]
            1 => { type $S = mlkem::M768; $e }
            #[cfg(feature = "mlkem")]
            2 => { type $S = mlkem::M1024; $e }
            #[cfg(feature = "xwing")]
            3 => { type $S = xw::XWing; $e }
            #[cfg(feature = "dh_small")]
            4 => { type $S = dh::X25519; $e }
            #[cfg(feature = "dh_small")]
            5 => { type $S = dh::P256; $e }
            #[cfg(feature = "dh_big")]
            6 => { type $S = dh::P384; $e }
            #[cfg(feature = "dh_big")]
            7 => { type $S = dh::P521; $e }
            #[cfg(feature = "dh_big")]
            8 => { type $S = dh::K256; $e }
            _ => UNSUPPORTED,
        }
    };
}

fn fin<T>(r: R<T>, f: impl FnOnce(T)) -> i32 {
    match r {
        R::Ok(v) => {
            f(v);
            OK
        }
        R::Refused => REFUSED,
        R::Unsupported => UNSUPPORTED,
    }
}

/// A box whose content lies where the simulator says, as far as its alignment allows.
struct Put<T>(*mut T);

impl<T> Put<T> {
    fn layout() -> std::alloc::Layout {
        std::alloc::Layout::from_size_align(core::mem::size_of::<T>() + 64, 64).unwrap()
    }
    fn new(v: T) -> Self {
        let off = place() % 64 / core::mem::align_of::<T>() * core::mem::align_of::<T>();
        unsafe {
            let b = within(false, || std::alloc::alloc(Self::layout()));
            assert!(!b.is_null());
            let p = b.add(off).cast::<T>();
            p.write(v);
            Put(p)
        }
    }
    fn into_raw(self) -> *mut T {
        core::mem::ManuallyDrop::new(self).0
    }
    unsafe fn free(p: *mut T) {
        std::alloc::dealloc((p as usize & !63) as *mut u8, Self::layout());
    }
    unsafe fn take(p: *mut u8) -> T {
        let p = p.cast::<T>();
        let v = p.read();
        Self::free(p);
        v
    }
}

impl<T> core::ops::Deref for Put<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0 }
    }
}

impl<T> Drop for Put<T> {
    fn drop(&mut self) {
        unsafe {
            core::ptr::drop_in_place(self.0);
            Self::free(self.0);
        }
    }
}

unsafe fn bx<T>(v: T, out: *mut *mut u8) {
    *out = Put::new(v).into_raw() as *mut u8;
}

#[no_mangle]
pub unsafe extern "C" fn kn_init(h: *const Host) -> *mut Cov {
    HOST = Some(&*h);
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        let b = s.as_bytes();
        let n = b.len().min(512);
        unsafe {
            LAST_PANIC[..n].copy_from_slice(&b[..n]);
            LAST_PANIC_LEN = n;
        }
    }));
    &raw mut COV
}

#[no_mangle]
pub unsafe extern "C" fn kn_last_panic(out: &mut Out) {
    out.put(&LAST_PANIC[..LAST_PANIC_LEN]);
}

/// bit s: scheme s present; bit 16: deterministic API; bit 17: OS entropy API.
#[no_mangle]
pub extern "C" fn kn_caps() -> u32 {
    let mut c = 0;
    if cfg!(feature = "mlkem") {
        c |= 0b111;
    }
    if cfg!(feature = "xwing") {
        c |= 0b1000;
    }
    if cfg!(feature = "dh_small") {
        c |= 0b11_0000;
    }
    if cfg!(feature = "dh_big") {
        c |= 0b1_1100_0000;
    }
    if cfg!(feature = "mlkem_det") {
        c |= 1 << 16;
    }
    if cfg!(feature = "os_rng") {
        c |= 1 << 17;
    }
    c
}

#[no_mangle]
pub unsafe extern "C" fn kn_keygen(s: u32, dk: *mut *mut u8, ek: *mut *mut u8) -> i32 {
    run(|| {
        dispatch!(s, S => {
            let (d, e) = <S as Scheme>::keygen(&mut NodeRng);
            bx(d, dk);
            bx(e, ek);
            OK
        })
    })
}

#[no_mangle]
pub unsafe extern "C" fn kn_keygen_os(s: u32, form: u32, dk: *mut *mut u8, ek: *mut *mut u8) -> i32 {
    run(|| {
        dispatch!(s, S => fin(<S as Scheme>::keygen_os(form), |(d, e)| {
            bx(d, dk);
            bx(e, ek);
        }))
    })
}

#[no_mangle]
pub unsafe extern "C" fn kn_keygen_det(s: u32, seed: *const u8, dk: *mut *mut u8, ek: *mut *mut u8) -> i32 {
    let d = core::slice::from_raw_parts(seed, 32);
    let z = core::slice::from_raw_parts(seed.add(32), 32);
    run(|| {
        dispatch!(s, S => fin(<S as Scheme>::keygen_det(d, z), |(d, e)| {
            bx(d, dk);
            bx(e, ek);
        }))
    })
}

#[no_mangle]
pub unsafe extern "C" fn kn_dk_load(s: u32, p: *const u8, n: usize, dk: *mut *mut u8) -> i32 {
    let b = core::slice::from_raw_parts(p, n);
    run(|| dispatch!(s, S => fin(<S as Scheme>::dk_load(b), |d| bx(d, dk))))
}

#[no_mangle]
pub unsafe extern "C" fn kn_dk_store(s: u32, dk: *const u8, out: &mut Out) -> i32 {
    run(|| dispatch!(s, S => fin(<S as Scheme>::dk_store(&*dk.cast()), |v| out.put(&v))))
}

#[no_mangle]
pub unsafe extern "C" fn kn_dk_ek(s: u32, dk: *const u8, ek: *mut *mut u8) -> i32 {
    run(|| dispatch!(s, S => fin(<S as Scheme>::dk_ek(&*dk.cast()), |e| bx(e, ek))))
}

#[no_mangle]
pub unsafe extern "C" fn kn_ek_load(s: u32, p: *const u8, n: usize, ek: *mut *mut u8) -> i32 {
    let b = core::slice::from_raw_parts(p, n);
    run(|| dispatch!(s, S => fin(<S as Scheme>::ek_load(b), |e| bx(e, ek))))
}

#[no_mangle]
pub unsafe extern "C" fn kn_ek_store(s: u32, ek: *const u8, form: u32, out: &mut Out) -> i32 {
    run(|| dispatch!(s, S => fin(<S as Scheme>::ek_store(&*ek.cast(), form), |v| out.put(&v))))
}

#[no_mangle]
pub unsafe extern "C" fn kn_encap(s: u32, ek: *const u8, ct: &mut Out, ss: &mut Out) -> i32 {
    run(|| {
        dispatch!(s, S => fin(<S as Scheme>::encap(&*ek.cast(), &mut NodeRng), |(c, k)| {
            ct.put(&c);
            ss.put(&k);
        }))
    })
}

#[no_mangle]
pub unsafe extern "C" fn kn_encap_det(s: u32, ek: *const u8, m: *const u8, ct: &mut Out, ss: &mut Out) -> i32 {
    let m = core::slice::from_raw_parts(m, 32);
    run(|| {
        dispatch!(s, S => fin(<S as Scheme>::encap_det(&*ek.cast(), m), |(c, k)| {
            ct.put(&c);
            ss.put(&k);
        }))
    })
}

#[no_mangle]
pub unsafe extern "C" fn kn_decap(s: u32, dk: *const u8, p: *const u8, n: usize, ss: &mut Out) -> i32 {
    let b = core::slice::from_raw_parts(p, n);
    run(|| dispatch!(s, S => fin(<S as Scheme>::decap(&*dk.cast(), b), |k| ss.put(&k))))
}

#[no_mangle]
pub unsafe extern "C" fn kn_ct_roundtrip(s: u32, p: *const u8, n: usize, q: *const u8, m: usize, out: &mut Out) -> i32 {
    let (b, o) = (core::slice::from_raw_parts(p, n), core::slice::from_raw_parts(q, m));
    run(|| dispatch!(s, S => fin(<S as Scheme>::ct_roundtrip(b, o), |v| out.put(&v))))
}

#[no_mangle]
pub unsafe extern "C" fn kn_dk_clone(s: u32, dk: *const u8, out: *mut *mut u8) -> i32 {
    run(|| dispatch!(s, S => fin(<S as Scheme>::dk_clone(&*dk.cast()), |d| bx(d, out))))
}

#[no_mangle]
pub unsafe extern "C" fn kn_ek_clone(s: u32, ek: *const u8, out: *mut *mut u8) -> i32 {
    run(|| dispatch!(s, S => fin(<S as Scheme>::ek_clone(&*ek.cast()), |e| bx(e, out))))
}

/// 1 equal, 0 different, negative: status.
#[no_mangle]
pub unsafe extern "C" fn kn_dk_eq(s: u32, a: *const u8, b: *const u8, eq: *mut i32) -> i32 {
    run(|| dispatch!(s, S => fin(<S as Scheme>::dk_eq(&*a.cast(), &*b.cast()), |v| *eq = v as i32)))
}

#[no_mangle]
pub unsafe extern "C" fn kn_ek_eq(s: u32, a: *const u8, b: *const u8, eq: *mut i32) -> i32 {
    run(|| dispatch!(s, S => fin(<S as Scheme>::ek_eq(&*a.cast(), &*b.cast()), |v| *eq = v as i32)))
}

#[no_mangle]
pub unsafe extern "C" fn kn_dk_wipe(s: u32, dk: *mut u8) -> i32 {
    covhook::keep();
    run(|| dispatch!(s, S => fin(<S as Scheme>::dk_wipe(&mut *dk.cast()), |()| ())))
}

#[no_mangle]
pub unsafe extern "C" fn kn_rewrap(s: u32, dk: *mut *mut u8, ek: *mut *mut u8) -> i32 {
    run(|| {
        dispatch!(s, S => {
            let d = Put::<<S as Scheme>::Dk>::take(*dk);
            bx(<S as Scheme>::dk_rewrap(d), dk);
            let e = Put::<<S as Scheme>::Ek>::take(*ek);
            bx(<S as Scheme>::ek_rewrap(e), ek);
            OK
        })
    })
}

#[no_mangle]
pub unsafe extern "C" fn kn_dk_free(s: u32, dk: *mut u8) -> i32 {
    run(|| {
        dispatch!(s, S => {
            drop(Put(dk.cast::<<S as Scheme>::Dk>()));
            OK
        })
    })
}

#[no_mangle]
pub unsafe extern "C" fn kn_ek_free(s: u32, ek: *mut u8) -> i32 {
    run(|| {
        dispatch!(s, S => {
            drop(Put(ek.cast::<<S as Scheme>::Ek>()));
            OK
        })
    })
}

// --- storage the simulator can look at (erasure property) -------------------------------------

/// size and alignment of the decapsulation key type
#[no_mangle]
pub unsafe extern "C" fn kn_dk_layout(s: u32, size: *mut usize, align: *mut usize) -> i32 {
    run(|| {
        dispatch!(s, S => {
            *size = core::mem::size_of::<<S as Scheme>::Dk>();
            *align = core::mem::align_of::<<S as Scheme>::Dk>();
            OK
        })
    })
}

/// Move a boxed key into `place`, releasing the box.
#[no_mangle]
pub unsafe extern "C" fn kn_dk_place(s: u32, dk: *mut u8, place: *mut u8) -> i32 {
    run(|| {
        dispatch!(s, S => {
            place.cast::<<S as Scheme>::Dk>().write(Put::<<S as Scheme>::Dk>::take(dk));
            OK
        })
    })
}

#[no_mangle]
pub unsafe extern "C" fn kn_dk_drop_in_place(s: u32, place: *mut u8) -> i32 {
    covhook::keep();
    run(|| {
        dispatch!(s, S => {
            core::ptr::drop_in_place(place.cast::<<S as Scheme>::Dk>());
            OK
        })
    })
}

/// The owner of the key at `place` starts an operation that draws randomness; whether that
/// completes or unwinds, the owner's frame then goes away and the key in `place` with it.
#[no_mangle]
pub unsafe extern "C" fn kn_dk_scoped(s: u32, place: *mut u8, ek: *const u8) -> i32 {
    run(|| {
        dispatch!(s, S => {
            struct Guard(*mut <S as Scheme>::Dk);
            impl Drop for Guard {
                fn drop(&mut self) {
                    covhook::keep();
                    unsafe { core::ptr::drop_in_place(self.0) }
                }
            }
            let g = Guard(place.cast());
            let r = <S as Scheme>::encap(&*ek.cast(), &mut NodeRng);
            if let R::Ok((c, _)) = r {
                let _ = <S as Scheme>::decap(&*g.0, &c);
            }
            drop(g);
            OK
        })
    })
}

/// What was in the heap memory the last key dropped (or wiped) by this task gave back.
#[no_mangle]
pub unsafe extern "C" fn kn_kept(out: &mut Out) -> i32 {
    let v = covhook::kept();
    out.put(&v[..v.len().min(out.cap)]);
    within(false, || drop(v));
    OK
}

/// X-Wing ciphertext object: build in place / drop in place.
#[no_mangle]
pub unsafe extern "C" fn kn_ct_place(s: u32, p: *const u8, n: usize, place: *mut u8, size: *mut usize) -> i32 {
    let _ = (p, n, place, size);
    #[cfg(feature = "xwing")]
    if s == 3 {
        let b = core::slice::from_raw_parts(p, n);
        return run(|| {
            let Ok(c) = <&[u8; x_wing::CIPHERTEXT_SIZE]>::try_from(b) else {
                return REFUSED;
            };
            *size = core::mem::size_of::<x_wing::Ciphertext>();
            place.cast::<x_wing::Ciphertext>().write(x_wing::Ciphertext::from(c));
            OK
        });
    }
    let _ = s;
    UNSUPPORTED
}

#[no_mangle]
pub unsafe extern "C" fn kn_ct_drop_in_place(s: u32, place: *mut u8) -> i32 {
    let _ = place;
    #[cfg(feature = "xwing")]
    if s == 3 {
        return run(|| {
            core::ptr::drop_in_place(place.cast::<x_wing::Ciphertext>());
            OK
        });
    }
    let _ = s;
    UNSUPPORTED
}
