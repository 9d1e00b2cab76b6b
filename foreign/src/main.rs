//! foreign FILE [alone] : carries out the histories in FILE, one per line, and prints what came of each.
//! A history: `ID CREW SCHEME SEED STEP,STEP,…`.  CREW threads share the keys (`alone`: one after
//! the other in one thread); every draw comes from SEED.  Nothing is decided here.
use kem::{Decapsulate, Encapsulate};
use rand_core::{CryptoRng, RngCore};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The random source: a seeded stream that fails when its budget is used up.
struct Source {
    state: u64,
    left: usize,
    drawn: usize,
}
impl Source {
    fn new(seed: u64) -> Self {
        Source { state: seed, left: usize::MAX, drawn: 0 }
    }
}
struct Dry;
impl RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            if self.left == 0 {
                self.left = usize::MAX;
                std::panic::resume_unwind(Box::new(Dry));
            }
            self.left -= 1;
            self.drawn += 1;
            self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = self.state;
            z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
            *d = (z >> 56) as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Source {}

fn show(out: &mut String, what: &str, b: &[u8]) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    let _ = write!(out, " {what}:{}:{h:016x}", b.len());
}

trait Scheme {
    type Dk: Send + Sync;
    type Ek: Send + Sync;
    fn keygen(r: &mut Source) -> (Self::Dk, Self::Ek);
    fn dk_store(_: &Self::Dk) -> Option<Vec<u8>> {
        None
    }
    fn dk_load(_: &[u8]) -> Option<Self::Dk> {
        None
    }
    fn dk_clone(_: &Self::Dk) -> Option<Self::Dk> {
        None
    }
    fn dk_same(_: &Self::Dk, _: &Self::Dk) -> Option<bool> {
        None
    }
    fn dk_ek(_: &Self::Dk) -> Option<Self::Ek> {
        None
    }
    fn ek_store(k: &Self::Ek) -> Vec<u8>;
    fn ek_load(b: &[u8]) -> Option<Self::Ek>;
    fn ek_same(a: &Self::Ek, b: &Self::Ek) -> bool;
    fn encap(k: &Self::Ek, r: &mut Source) -> (Vec<u8>, Vec<u8>);
    fn decap(k: &Self::Dk, ct: &[u8]) -> Option<Vec<u8>>;
}

mod mlkem {
    use super::*;
    use ml_kem::kem::{DecapsulationKey, EncapsulationKey};
    use ml_kem::{Ciphertext, Encoded, EncodedSizeUser, KemCore};
    macro_rules! scheme {
        ($name:ident, $kem:ty, $params:ty) => {
            pub struct $name;
            impl Scheme for $name {
                type Dk = DecapsulationKey<$params>;
                type Ek = EncapsulationKey<$params>;
                fn keygen(r: &mut Source) -> (Self::Dk, Self::Ek) {
                    <$kem>::generate(r)
                }
                fn dk_store(k: &Self::Dk) -> Option<Vec<u8>> {
                    Some(k.as_bytes().to_vec())
                }
                fn dk_load(b: &[u8]) -> Option<Self::Dk> {
                    Some(Self::Dk::from_bytes(<&Encoded<Self::Dk>>::try_from(b).ok()?))
                }
                fn dk_clone(k: &Self::Dk) -> Option<Self::Dk> {
                    Some(k.clone())
                }
                fn dk_same(a: &Self::Dk, b: &Self::Dk) -> Option<bool> {
                    Some(a == b)
                }
                fn dk_ek(k: &Self::Dk) -> Option<Self::Ek> {
                    Some(k.encapsulation_key().clone())
                }
                fn ek_store(k: &Self::Ek) -> Vec<u8> {
                    k.as_bytes().to_vec()
                }
                fn ek_load(b: &[u8]) -> Option<Self::Ek> {
                    Some(Self::Ek::from_bytes(<&Encoded<Self::Ek>>::try_from(b).ok()?))
                }
                fn ek_same(a: &Self::Ek, b: &Self::Ek) -> bool {
                    a == b
                }
                fn encap(k: &Self::Ek, r: &mut Source) -> (Vec<u8>, Vec<u8>) {
                    let (c, s) = k.encapsulate(r).unwrap();
                    (c.to_vec(), s.to_vec())
                }
                fn decap(k: &Self::Dk, ct: &[u8]) -> Option<Vec<u8>> {
                    Some(k.decapsulate(<&Ciphertext<$kem>>::try_from(ct).ok()?).unwrap().to_vec())
                }
            }
        };
    }
    scheme!(M512, ml_kem::MlKem512, ml_kem::MlKem512Params);
    scheme!(M768, ml_kem::MlKem768, ml_kem::MlKem768Params);
    scheme!(M1024, ml_kem::MlKem1024, ml_kem::MlKem1024Params);
}

struct XWing;
impl Scheme for XWing {
    type Dk = x_wing::DecapsulationKey;
    type Ek = x_wing::EncapsulationKey;
    fn keygen(r: &mut Source) -> (Self::Dk, Self::Ek) {
        x_wing::generate_key_pair(r)
    }
    fn dk_store(k: &Self::Dk) -> Option<Vec<u8>> {
        Some(k.as_bytes().to_vec())
    }
    fn dk_load(b: &[u8]) -> Option<Self::Dk> {
        Some(<[u8; 32]>::try_from(b).ok()?.into())
    }
    fn dk_clone(k: &Self::Dk) -> Option<Self::Dk> {
        Some(k.clone())
    }
    fn dk_ek(k: &Self::Dk) -> Option<Self::Ek> {
        Some(k.encapsulation_key())
    }
    fn ek_store(k: &Self::Ek) -> Vec<u8> {
        k.as_bytes().to_vec()
    }
    fn ek_load(b: &[u8]) -> Option<Self::Ek> {
        Some(<&[u8; x_wing::ENCAPSULATION_KEY_SIZE]>::try_from(b).ok()?.into())
    }
    fn ek_same(a: &Self::Ek, b: &Self::Ek) -> bool {
        a == b
    }
    fn encap(k: &Self::Ek, r: &mut Source) -> (Vec<u8>, Vec<u8>) {
        let (c, s) = k.encapsulate(r).unwrap();
        (c.as_bytes().to_vec(), s.to_vec())
    }
    fn decap(k: &Self::Dk, ct: &[u8]) -> Option<Vec<u8>> {
        let c = x_wing::Ciphertext::from(<&[u8; x_wing::CIPHERTEXT_SIZE]>::try_from(ct).ok()?);
        Some(k.decapsulate(&c).unwrap().to_vec())
    }
}

mod dh {
    use super::*;
    use dhkem::{DhDecapsulator, DhEncapsulator, DhKem};
    use elliptic_curve::sec1::ToEncodedPoint;

    pub struct X25519;
    impl Scheme for X25519 {
        type Dk = <dhkem::X25519Kem as DhKem>::DecapsulatingKey;
        type Ek = <dhkem::X25519Kem as DhKem>::EncapsulatingKey;
        fn keygen(r: &mut Source) -> (Self::Dk, Self::Ek) {
            dhkem::X25519Kem::random_keypair(r)
        }
        fn dk_clone(k: &Self::Dk) -> Option<Self::Dk> {
            Some(DhDecapsulator::from(k.clone().into_inner()))
        }
        fn ek_store(k: &Self::Ek) -> Vec<u8> {
            k.as_ref().as_bytes().to_vec()
        }
        fn ek_load(b: &[u8]) -> Option<Self::Ek> {
            Some(DhEncapsulator::from(x25519::PublicKey::from(<[u8; 32]>::try_from(b).ok()?)))
        }
        fn ek_same(a: &Self::Ek, b: &Self::Ek) -> bool {
            a == b
        }
        fn encap(k: &Self::Ek, r: &mut Source) -> (Vec<u8>, Vec<u8>) {
            let (c, s) = k.encapsulate(r).unwrap();
            (c.as_bytes().to_vec(), s.as_bytes().to_vec())
        }
        fn decap(k: &Self::Dk, ct: &[u8]) -> Option<Vec<u8>> {
            let c = x25519::PublicKey::from(<[u8; 32]>::try_from(ct).ok()?);
            Some(k.decapsulate(&c).unwrap().as_bytes().to_vec())
        }
    }

    pub struct P256;
    type Kem = dhkem::EcdhKem<p256::NistP256>;
    impl Scheme for P256 {
        type Dk = <Kem as DhKem>::DecapsulatingKey;
        type Ek = <Kem as DhKem>::EncapsulatingKey;
        fn keygen(r: &mut Source) -> (Self::Dk, Self::Ek) {
            Kem::random_keypair(r)
        }
        fn ek_store(k: &Self::Ek) -> Vec<u8> {
            k.to_encoded_point(false).as_bytes().to_vec()
        }
        fn ek_load(b: &[u8]) -> Option<Self::Ek> {
            Some(DhEncapsulator::from(p256::PublicKey::from_sec1_bytes(b).ok()?))
        }
        fn ek_same(a: &Self::Ek, b: &Self::Ek) -> bool {
            a == b
        }
        fn encap(k: &Self::Ek, r: &mut Source) -> (Vec<u8>, Vec<u8>) {
            let (c, s) = k.encapsulate(r).unwrap();
            (c.to_encoded_point(true).as_bytes().to_vec(), s.raw_secret_bytes().to_vec())
        }
        fn decap(k: &Self::Dk, ct: &[u8]) -> Option<Vec<u8>> {
            let c = p256::PublicKey::from_sec1_bytes(ct).ok()?;
            Some(k.decapsulate(&c).unwrap().raw_secret_bytes().to_vec())
        }
    }
}

/// What one member of the crew holds.
struct Hand<S: Scheme> {
    dk: Option<S::Dk>,
    ek: Option<S::Ek>,
    ct: Vec<u8>,
    rng: Source,
}

fn damage(b: &mut [u8], at: usize) {
    if !b.is_empty() {
        let n = b.len();
        b[at / 8 % n] ^= 1 << (at % 8);
    }
}

/// One step; keys the member has not replaced are the shared ones.
fn step<S: Scheme>(op: &str, h: &mut Hand<S>, keys: &(S::Dk, S::Ek), out: &mut String) {
    let n: usize = op[1..].parse().unwrap_or(0);
    let dk = h.dk.as_ref().unwrap_or(&keys.0);
    let ek = h.ek.as_ref().unwrap_or(&keys.1);
    let loaded = |b: Option<Vec<u8>>, out: &mut String| {
        let Some(k) = b.and_then(|b| S::dk_load(&b)) else { return None };
        let _ = write!(out, " same:{:?}", S::dk_same(&k, &keys.0));
        show(out, "dk", &S::dk_store(&k).unwrap_or_default());
        Some(k)
    };
    match op.as_bytes()[0] {
        // encapsulate, decapsulate
        b'e' => {
            h.rng.drawn = 0;
            let (c, s) = S::encap(ek, &mut h.rng);
            show(out, "ct", &c);
            show(out, "sent", &s);
            let _ = write!(out, " drew:{}", h.rng.drawn);
            h.ct = c;
        }
        b'd' => match S::decap(dk, &h.ct) {
            Some(s) => show(out, "got", &s),
            None => out.push_str(" refused"),
        },
        // the ciphertext loses a bit
        b'x' => damage(&mut h.ct, n),
        // the private key: stored and restored, damaged in between, cloned
        b'r' => h.dk = loaded(S::dk_store(dk), out).or(h.dk.take()),
        b'b' => {
            let mut b = S::dk_store(dk);
            if let Some(b) = &mut b {
                damage(b, n);
            }
            h.dk = loaded(b, out).or(h.dk.take());
        }
        b'c' => h.dk = S::dk_clone(dk).or(h.dk.take()),
        // the public key: from the private one, stored and restored, with an oversized coefficient
        b'p' => h.ek = S::dk_ek(dk).or(h.ek.take()),
        b'q' | b'o' => {
            let mut b = S::ek_store(ek);
            if op.starts_with('o') && b.len() > 400 {
                let i = n % 256 / 2 * 3;
                b[i] |= 0x01;
                b[i + 1] |= 0xfd;
                b[i + 2] = 0xff;
            }
            match S::ek_load(&b) {
                Some(k) => {
                    let _ = write!(out, " same:{}", S::ek_same(&k, &keys.1));
                    show(out, "ek", &S::ek_store(&k));
                    h.ek = Some(k);
                }
                None => out.push_str(" refused"),
            }
        }
        // the source will run dry
        b'f' => h.rng.left = n,
        _ => {}
    }
}

fn carry_out<S: Scheme>(crew: usize, seed: u64, steps: &str, alone: bool) -> String
where
    S::Dk: 'static,
{
    let mut out = String::new();
    let keys = S::keygen(&mut Source::new(seed));
    show(&mut out, "ek", &S::ek_store(&keys.1));
    show(&mut out, "dk", &S::dk_store(&keys.0).unwrap_or_default());
    let member = |i: usize| {
        let mut out = String::new();
        let mut h: Hand<S> = Hand { dk: None, ek: None, ct: vec![], rng: Source::new(seed ^ (i as u64 + 1) << 32) };
        for op in steps.split(',') {
            let mut line = String::new();
            match catch_unwind(AssertUnwindSafe(|| step(op, &mut h, &keys, &mut line))) {
                Ok(()) => {}
                Err(p) if p.is::<Dry>() => line.push_str(" dry"),
                Err(_) => line.push_str(" panic"),
            }
            let _ = write!(out, " {op}{line}");
        }
        out
    };
    let parts: Vec<String> = if alone || crew < 2 {
        (0..crew).map(member).collect()
    } else {
        std::thread::scope(|s| {
            let m = &member;
            let t: Vec<_> = (0..crew).map(|i| s.spawn(move || m(i))).collect();
            t.into_iter().map(|t| t.join().unwrap_or_else(|_| " thread panicked".into())).collect()
        })
    };
    for (i, p) in parts.iter().enumerate() {
        let _ = write!(out, " [{i}]{p}");
    }
    out
}

fn main() {
    let path = std::env::args().nth(1).expect("FILE");
    let alone = std::env::args().nth(2).is_some();
    for line in std::fs::read_to_string(path).expect("history").lines() {
        let f: Vec<&str> = line.split(' ').collect();
        let [id, crew, scheme, seed, steps] = f[..] else { continue };
        let (crew, seed) = (crew.parse().unwrap_or(1), seed.parse().unwrap_or(0));
        let done = catch_unwind(|| match scheme {
            "mlkem512" => carry_out::<mlkem::M512>(crew, seed, steps, alone),
            "mlkem768" => carry_out::<mlkem::M768>(crew, seed, steps, alone),
            "mlkem1024" => carry_out::<mlkem::M1024>(crew, seed, steps, alone),
            "xwing" => carry_out::<XWing>(crew, seed, steps, alone),
            "x25519" => carry_out::<dh::X25519>(crew, seed, steps, alone),
            "p256" => carry_out::<dh::P256>(crew, seed, steps, alone),
            _ => "unknown scheme".into(),
        });
        println!("{id}{}", done.unwrap_or_else(|_| " keygen panicked".into()));
    }
}
