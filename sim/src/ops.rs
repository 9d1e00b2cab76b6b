//! Operations as self-contained functions of (image, arguments, entropy): used for the primary
//! execution where no object has to survive, for mirrors, reruns and solo executions.

use crate::api::*;
use crate::kernel::{cur, EntFault, EntSpec, Entropy};
use crate::model;

#[derive(Clone, Debug)]
pub enum KeyMat {
    Bytes(Vec<u8>),
    /// keys that cannot be stored are grown again from their entropy
    Ent(EntSpec),
}

#[derive(Clone, Debug, PartialEq, Copy)]
pub enum Draw {
    Rng,
    Os(u32),
    Det,
}

#[derive(Clone, Debug)]
pub enum Sop {
    KeyGen { s: u32, draw: Draw, ent: EntSpec },
    Encap { s: u32, ek: Vec<u8>, det: bool, ent: EntSpec },
    Decap { s: u32, key: KeyMat, ct: Vec<u8> },
    Hostile { s: u32, dk: bool, bytes: Vec<u8>, ct: Vec<u8>, ent: EntSpec },
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Outp {
    pub st: i32,
    pub parts: Vec<Vec<u8>>,
}

impl Outp {
    pub fn ok(parts: Vec<Vec<u8>>) -> Self {
        Outp { st: OK, parts }
    }
    pub fn fail(st: i32) -> Self {
        Outp { st, parts: vec![] }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = (self.st as u32).to_le_bytes().to_vec();
        for p in &self.parts {
            v.extend((p.len() as u32).to_le_bytes());
            v.extend(p);
        }
        v
    }
    pub fn decode(v: &[u8]) -> Option<Outp> {
        let w = |i: usize| -> Option<u32> { Some(u32::from_le_bytes(v.get(i..i + 4)?.try_into().ok()?)) };
        let st = w(0)? as i32;
        let mut parts = vec![];
        let mut i = 4;
        while i < v.len() {
            let n = w(i)? as usize;
            parts.push(v.get(i + 4..i + 4 + n)?.to_vec());
            i += 4 + n;
        }
        Some(Outp { st, parts })
    }
    pub fn brief(&self) -> String {
        if self.st != OK {
            return status_name(self.st).into();
        }
        let v: Vec<String> = self
            .parts
            .iter()
            .map(|p| {
                if p.len() <= 40 {
                    crate::kernel::hex(p)
                } else {
                    format!("{}..({} bytes, #{:016x})", crate::kernel::hex(&p[..12]), p.len(), crate::rng::hash_bytes(0, p))
                }
            })
            .collect();
        v.join(" | ")
    }
}

/// Point the running task at a fresh, healthy source.
pub fn use_entropy(spec: &EntSpec) {
    cur().ent = Entropy::new(spec.clone(), EntFault::default());
}

/// dk bytes where they exist; otherwise what the key makes of its own public key.
pub fn dk_view(i: Img, s: u32, dk: usize, ekb: &[u8]) -> (i32, Vec<u8>) {
    if stores_dk(s) {
        dk_store(i, s, dk)
    } else {
        decap(i, s, dk, ekb)
    }
}

macro_rules! tri {
    ($e:expr) => {{
        let r = $e;
        if r.0 != OK {
            return Outp::fail(r.0);
        }
        r
    }};
}

pub fn grow(i: Img, s: u32, draw: Draw, ent: &EntSpec) -> (i32, usize, usize) {
    match draw {
        Draw::Rng => keygen(i, s),
        Draw::Os(f) => keygen_os(i, s, f),
        Draw::Det => keygen_det(i, s, &ent.bytes(64)),
    }
}

pub fn exec(i: Img, op: &Sop) -> Outp {
    match op {
        Sop::KeyGen { s, draw, ent } => {
            use_entropy(ent);
            let (st, dk, ek) = grow(i, *s, *draw, ent);
            if st != OK {
                return Outp::fail(st);
            }
            let (_, ekb) = tri!(ek_bytes(i, *s, ek));
            let (_, dkb) = tri!(dk_view(i, *s, dk, &ekb));
            dk_free(i, *s, dk);
            ek_free(i, *s, ek);
            Outp::ok(vec![dkb, ekb])
        }
        Sop::Encap { s, ek, det, ent } => {
            let (_, k) = tri!(ek_load(i, *s, ek));
            use_entropy(ent);
            let (st, ct, ss) = if *det { encap_det(i, *s, k, &ent.bytes(32)) } else { encap(i, *s, k) };
            ek_free(i, *s, k);
            if st != OK {
                return Outp::fail(st);
            }
            Outp::ok(vec![ct, ss])
        }
        Sop::Decap { s, key, ct } => {
            let dk = match key {
                KeyMat::Bytes(b) => tri!(dk_load(i, *s, b)).1,
                KeyMat::Ent(e) => {
                    use_entropy(e);
                    let (st, d, e) = keygen(i, *s);
                    if st != OK {
                        return Outp::fail(st);
                    }
                    ek_free(i, *s, e);
                    d
                }
            };
            let (st, ss) = decap(i, *s, dk, ct);
            dk_free(i, *s, dk);
            if st != OK {
                return Outp::fail(st);
            }
            Outp::ok(vec![ss])
        }
        Sop::Hostile { s, dk, bytes, ct, ent } => {
            if *dk {
                hostile_dk(i, *s, bytes, ct, ent)
            } else {
                hostile_ek(i, *s, bytes, ent)
            }
        }
    }
}

/// Everything a holder would do with a key parsed from these bytes.
/// parts: stored form, public half, decap(ct), decap(own encap) , own ct, own ss, flags
/// flags: 1 reparse equal, 2 restored bytes equal, 4 clone equal
fn hostile_dk(i: Img, s: u32, bytes: &[u8], ct: &[u8], ent: &EntSpec) -> Outp {
    let (_, k) = tri!(dk_load(i, s, bytes));
    let (_, b1) = tri!(dk_store(i, s, k));
    let (_, k2) = tri!(dk_load(i, s, &b1));
    let (_, b2) = tri!(dk_store(i, s, k2));
    let mut flags = 0u8;
    let (st, eq) = dk_eq(i, s, k, k2);
    if st == PANIC {
        return Outp::fail(st);
    }
    if st == UNSUPPORTED || eq {
        flags |= 1;
    }
    if b1 == b2 {
        flags |= 2;
    }
    let (_, e) = tri!(dk_ek(i, s, k));
    let (_, eb) = tri!(ek_bytes(i, s, e));
    let (_, c) = tri!(dk_clone(i, s, k));
    let (_, b3) = tri!(dk_store(i, s, c));
    if b3 == b1 {
        flags |= 4;
    }
    let (_, ss1) = tri!(decap(i, s, k, ct));
    use_entropy(ent);
    let (st, ct2, ss2) = encap(i, s, e);
    if st != OK {
        return Outp::fail(st);
    }
    let (_, ss3) = tri!(decap(i, s, c, &ct2));
    for h in [k, k2, c] {
        dk_free(i, s, h);
    }
    ek_free(i, s, e);
    Outp::ok(vec![b1, eb, ss1, ss3, ct2, ss2, vec![flags]])
}

/// parts: stored form, ct, ss, flags
fn hostile_ek(i: Img, s: u32, bytes: &[u8], ent: &EntSpec) -> Outp {
    let (_, k) = tri!(ek_load(i, s, bytes));
    let (_, b1) = tri!(ek_bytes(i, s, k));
    let (_, k2) = tri!(ek_load(i, s, &b1));
    let (_, b2) = tri!(ek_bytes(i, s, k2));
    let mut flags = 0u8;
    let (st, eq) = ek_eq(i, s, k, k2);
    if st == PANIC {
        return Outp::fail(st);
    }
    if st == UNSUPPORTED || eq {
        flags |= 1;
    }
    if b1 == b2 {
        flags |= 2;
    }
    let (_, c) = tri!(ek_clone(i, s, k));
    let (_, b3) = tri!(ek_bytes(i, s, c));
    if b3 == b1 {
        flags |= 4;
    }
    use_entropy(ent);
    let (st, ct, ss) = encap(i, s, c);
    if st != OK {
        return Outp::fail(st);
    }
    for h in [k, k2, c] {
        ek_free(i, s, h);
    }
    Outp::ok(vec![b1, ct, ss, vec![flags]])
}

/// What the standard prescribes; None if it says nothing (malformed input, entropy too short).
/// `drawn`: the bytes the operation actually consumed, if they are to be used instead of the spec.
pub fn expect(op: &Sop) -> Option<Outp> {
    const N: usize = 66 * 1500;
    let bytes = |s: u32, e: &EntSpec| e.bytes(if s == 7 { N } else { 2048 });
    match op {
        Sop::KeyGen { s, ent, .. } => {
            let (dk, ek, _) = model::std_keygen(*s, &bytes(*s, ent))?;
            let view = if stores_dk(*s) { dk } else { model::dh(*s, &dk, &ek)? };
            Some(Outp::ok(vec![view, ek]))
        }
        Sop::Encap { s, ek, ent, .. } => {
            if !model::is_dh(*s) && ek.len() != model::ek_len(*s) {
                return None;
            }
            let (ct, ss, _) = model::std_encap(*s, ek, &bytes(*s, ent))?;
            Some(Outp::ok(vec![ct, ss]))
        }
        Sop::Decap { s, key, ct } => {
            let dk = match key {
                KeyMat::Bytes(b) => {
                    if b.len() != model::dk_len(*s) {
                        return None;
                    }
                    b.clone()
                }
                KeyMat::Ent(e) => model::std_keygen(*s, &bytes(*s, e))?.0,
            };
            Some(Outp::ok(vec![model::std_decap(*s, &dk, ct)?]))
        }
        Sop::Hostile { .. } => None,
    }
}

/// An operation performed by the entropy source of another one, on the same image; what was wrong.
pub fn nested(i: Img, s: u32, seed: u64) -> Option<String> {
    let e = |n: u64| EntSpec::stream(crate::rng::mix(seed, n));
    let bytes = |e: &EntSpec| e.bytes(if s == 7 { 66 * 64 } else { 2048 });
    let op = match seed % 4 {
        0 => Sop::KeyGen { s, draw: Draw::Rng, ent: e(0) },
        n => {
            let (dk, ek, _) = model::std_keygen(s, &bytes(&e(1)))?;
            if n == 1 || !stores_dk(s) {
                Sop::Encap { s, ek, det: false, ent: e(2) }
            } else {
                let mut ct = model::std_encap(s, &ek, &bytes(&e(2)))?.0;
                if n == 3 {
                    ct[0] ^= 1;
                }
                Sop::Decap { s, key: KeyMat::Bytes(dk), ct }
            }
        }
    };
    let (got, want) = (exec(i, &op), expect(&op)?);
    (got != want).then(|| format!("{} instead of {}", got.brief(), want.brief()))
}

/// Bytes the standard algorithm takes from its entropy source.
pub fn std_consumption(s: u32, keygen: bool, drawn: &[u8]) -> Option<usize> {
    match (s, keygen) {
        (0..=2, true) => Some(64),
        (0..=2, false) => Some(32),
        (3, true) => Some(32),
        (3, false) => Some(64),
        // rejection sampling: whatever it takes with these bytes
        _ => model::dh_keygen(s, drawn).map(|x| x.2),
    }
}
