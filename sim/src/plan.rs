//! A run is a pure function of a Plan; a Plan is a pure function of (property, seed).

use crate::ffi::Build;
use crate::kernel::{hex, EntFault, EntPat, EntSpec, OsEvent, Sched};
use crate::model;
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub nodes: Vec<Build>,
    pub sched: Sched,
    /// repeat every operation on a node of another build and compare
    #[serde(default)]
    pub mirror: bool,
    /// repeat every drawing operation from the recorded entropy, also with one bit changed
    #[serde(default)]
    pub rerun: bool,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub at: u64,
    pub node: u8,
    pub op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Src {
    Rng,
    Os(u32),
    Det,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DiskFault {
    None,
    /// acknowledged but never durable
    Lost,
    /// only the first per-mille of the bytes reached the disk, the file keeps its length (zeros)
    Torn(u32),
    /// only the first per-mille of the bytes are there
    Short(u32),
    /// the tail (or the head) from this per-mille on still is what an older key left there
    Stale(u32, bool),
    /// these bits decayed
    Rot(Vec<u32>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mut {
    Flip(u32),
    Set(u32, u8),
    Zero(u32, u32),
    Ones(u32, u32),
    Swap(u32, u32, u32),
    Trunc(u32),
    Extend(u32, u8),
    /// replace a range by the same range of another message / key
    Splice(u32, u32, u32),
    /// add q to the n-th 12-bit field if that stays below 4096
    AddQ(u32),
    /// replace everything by pseudo-random bytes
    Scramble(u64),
    /// overwrite the tail from here with pseudo-random bytes
    ScrambleFrom(u32, u64),
    /// bytes of another message / key, or of the recipient's public key (`OWN`), from one offset to
    /// another
    Graft(u32, u32, u32, u32),
    /// a range copied within the bytes
    Copy(u32, u32, u32),
}

/// Names the recipient's public key where a message or key is named.
pub const OWN: u32 = u32::MAX;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum BSpec {
    Rand(u64),
    Fill(u8),
    /// 12-bit fields from a menu of boundary values
    Coefs(u64),
    /// every 12-bit field is this value
    AllCoef(u16),
    Hex(String),
    /// an existing key's (or message's) bytes, damaged
    Base(u32, Vec<Mut>),
    /// aimed: a point chosen so that the Diffie-Hellman secret with this key is an extreme value
    Aim(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Del {
    pub node: u8,
    pub delay: u64,
    /// deliver to the holder of another key
    #[serde(default)]
    pub misroute: Option<u32>,
    #[serde(default)]
    pub muts: Vec<Mut>,
    #[serde(default)]
    pub dropped: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum KOp {
    Clone,
    Reload,
    Rewrap,
    Forms,
    Eq(u32),
    Drop,
    /// compare with a copy that differs by this mutation of the stored bytes
    EqMut(Vec<Mut>),
    /// compare the public key with one loaded from its bytes after this mutation
    /// (no mutation, on an elliptic curve: with the opposite point)
    EkMut(Vec<Mut>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EraseHow {
    Plain,
    Clone,
    AfterUse,
    Unwind(u32),
    Wipe,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    KeyGen { key: u32, s: u32, src: Src, ent: EntSpec, fault: EntFault, disk: Option<DiskFault> },
    Crash { build: Build },
    Recover { key: u32 },
    Migrate { key: u32, to: u8, disk: DiskFault },
    Encap { msg: u32, key: u32, wire: bool, det: bool, ent: EntSpec, fault: EntFault, dels: Vec<Del> },
    Forge { key: u32, spec: BSpec },
    Hostile { s: u32, dk: bool, spec: BSpec, ent: EntSpec },
    Key { key: u32, what: KOp },
    Erase { s: u32, how: EraseHow, ent: EntSpec, ct: bool },
    Timing { s: u32, ent: EntSpec, n: u32, how: u32 },
    /// a long history in one process: the same few operations n times over
    Marathon { s: u32, how: u32, n: u32, ent: EntSpec },
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::KeyGen { .. } => "keygen",
            Op::Crash { .. } => "crash",
            Op::Recover { .. } => "recover",
            Op::Migrate { .. } => "migrate",
            Op::Encap { .. } => "encap",
            Op::Forge { .. } => "forge",
            Op::Hostile { .. } => "hostile",
            Op::Key { .. } => "keyop",
            Op::Erase { .. } => "erase",
            Op::Timing { .. } => "timing",
            Op::Marathon { .. } => "marathon",
        }
    }
}

pub fn apply_muts(b: &mut Vec<u8>, muts: &[Mut], other: &dyn Fn(u32) -> Option<Vec<u8>>) {
    for m in muts {
        let n = b.len();
        if n == 0 {
            return;
        }
        let span = |a: u32, l: u32| {
            let a = a as usize % n;
            (a, (a + (l as usize).max(1)).min(n))
        };
        match m {
            Mut::Flip(i) => {
                let i = *i as usize % (8 * n);
                b[i / 8] ^= 1 << (i % 8);
            }
            Mut::Set(i, v) => b[*i as usize % n] = *v,
            Mut::Zero(a, l) => {
                let (a, e) = span(*a, *l);
                b[a..e].fill(0);
            }
            Mut::Ones(a, l) => {
                let (a, e) = span(*a, *l);
                b[a..e].fill(0xff);
            }
            Mut::Swap(x, y, l) => {
                for i in 0..(*l as usize).max(1) {
                    b.swap((*x as usize + i) % n, (*y as usize + i) % n);
                }
            }
            Mut::Trunc(k) => b.truncate(n - (*k as usize).clamp(1, n)),
            Mut::Extend(k, v) => b.extend(std::iter::repeat_n(*v, (*k as usize).clamp(1, 64))),
            Mut::Splice(o, a, l) => {
                if let Some(o) = other(*o) {
                    let (a, e) = span(*a, *l);
                    for i in a..e.min(o.len()) {
                        b[i] = o[i];
                    }
                }
            }
            Mut::Graft(o, from, to, l) => {
                if let Some(o) = other(*o) {
                    let (a, e) = span(*to, *l);
                    for (x, y) in b[a..e].iter_mut().zip(o.iter().skip(*from as usize)) {
                        *x = *y;
                    }
                }
            }
            Mut::Copy(from, to, l) => {
                let (a, e) = span(*from, *l);
                let v = b[a..e].to_vec();
                let to = *to as usize % n;
                for (x, y) in b[to..].iter_mut().zip(v) {
                    *x = y;
                }
            }
            Mut::AddQ(k) => {
                let f = *k as usize % (n * 8 / 12);
                let bit = f * 12;
                let (i, sh) = (bit / 8, bit % 8);
                if i + 1 < n {
                    let w = b[i] as u32 | (b[i + 1] as u32) << 8;
                    let v = w >> sh & 0xfff;
                    if v + model::Q < 4096 {
                        let w = w & !(0xfff << sh) | (v + model::Q) << sh;
                        b[i] = w as u8;
                        b[i + 1] = (w >> 8) as u8;
                    }
                }
            }
            Mut::Scramble(s) => {
                let v = Rng::new(*s).bytes(n);
                b.copy_from_slice(&v);
            }
            Mut::ScrambleFrom(a, s) => {
                let a = *a as usize % n;
                let v = Rng::new(*s).bytes(n - a);
                b[a..].copy_from_slice(&v);
            }
        }
    }
}

const MENU: [u32; 14] = [0, 1, 2, 832, 833, 1664, 1665, 2496, 3328, 3329, 3330, 3331, 4094, 4095];

/// Bytes of length n in which the first `packed` bytes are 12-bit fields.
pub fn spec_bytes(spec: &BSpec, n: usize, packed: usize, base: &dyn Fn(u32) -> Option<Vec<u8>>) -> Option<Vec<u8>> {
    Some(match spec {
        BSpec::Rand(s) => Rng::new(*s).bytes(n),
        BSpec::Fill(v) => vec![*v; n],
        BSpec::Coefs(s) => {
            let mut r = Rng::new(*s);
            let mut b = r.bytes(n);
            let dense = r.chance(0.5);
            let menu: Vec<u32> = if r.chance(0.3) { vec![*r.pick(&MENU), *r.pick(&MENU)] } else { MENU.to_vec() };
            for f in 0..packed / 3 * 2 {
                if dense || r.chance(0.1) {
                    let v = *r.pick(&menu);
                    let bit = f * 12;
                    let (i, sh) = (bit / 8, bit % 8);
                    let w = b[i] as u32 | (b[i + 1] as u32) << 8;
                    let w = w & !(0xfff << sh) | v << sh;
                    b[i] = w as u8;
                    b[i + 1] = (w >> 8) as u8;
                }
            }
            b
        }
        BSpec::AllCoef(v) => {
            let mut b = vec![0u8; n];
            for f in 0..packed / 3 * 2 {
                let bit = f * 12;
                let (i, sh) = (bit / 8, bit % 8);
                let w = b[i] as u32 | (b[i + 1] as u32) << 8;
                let w = w & !(0xfff << sh) | ((*v as u32) & 0xfff) << sh;
                b[i] = w as u8;
                b[i + 1] = (w >> 8) as u8;
            }
            b
        }
        BSpec::Aim(_) => return None,
        BSpec::Hex(h) => crate::kernel::unhex(h),
        BSpec::Base(k, muts) => {
            let mut b = base(*k)?;
            apply_muts(&mut b, muts, base);
            b
        }
    })
}

// ---------------------------------------------------------------------------------------------
// generation

/// What a property's workload looks like.
#[derive(Clone)]
pub struct Profile {
    pub schemes: [f64; 9],
    /// A B C D E F Ref
    pub builds: [f64; 9],
    pub w_keygen: f64,
    pub w_encap: f64,
    pub w_forge: f64,
    pub w_hostile: f64,
    pub w_key: [f64; 8], // clone reload rewrap forms eq drop eqmut ekmut
    pub w_migrate: f64,
    pub w_crash: f64,
    pub w_erase: f64,
    pub w_timing: f64,
    pub p_marathon: f64,
    pub p_ent_fault: f64,
    pub p_os: f64,
    pub p_det: f64,
    /// chance that the caller's source uses the library itself while asked for bytes
    pub p_nested: f64,
    pub p_disk_fault: f64,
    pub p_tamper: f64,
    pub p_misroute: f64,
    pub p_dup: f64,
    pub p_drop: f64,
    pub p_pattern: f64,
    pub steps: (u64, u64),
    pub p_long: f64,
    pub max_width: u64,
    pub mirror: bool,
    pub rerun: bool,
    pub min_nodes: u64,
    pub max_nodes: u64,
}

const BUILDS: [Build; 9] =
    [Build::A, Build::B, Build::C, Build::D, Build::E, Build::F, Build::G, Build::H, Build::Ref];

const NOKEY: [f64; 8] = [0.0; 8];

impl Profile {
    fn base() -> Profile {
        Profile {
            schemes: [1.0; 9],
            builds: [3.0, 3.0, 0.5, 0.7, 0.7, 0.7, 0.5, 0.5, 0.0],
            w_keygen: 2.0,
            w_encap: 8.0,
            w_forge: 0.0,
            w_hostile: 0.0,
            w_key: NOKEY,
            w_migrate: 0.0,
            w_crash: 0.0,
            w_erase: 0.0,
            w_timing: 0.0,
            p_marathon: 0.04,
            p_ent_fault: 0.0,
            p_os: 0.0,
            p_det: 0.1,
            p_nested: 0.03,
            p_disk_fault: 0.0,
            p_tamper: 0.0,
            p_misroute: 0.0,
            p_dup: 0.15,
            p_drop: 0.05,
            p_pattern: 0.25,
            steps: (12, 40),
            p_long: 0.02,
            max_width: 6,
            mirror: false,
            rerun: false,
            min_nodes: 1,
            max_nodes: 4,
        }
    }

    pub fn of(prop: &str) -> Profile {
        let mlkem = [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];
        let xw = [0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0];
        let dh = [0.0, 0.0, 0.0, 0.0, 1.2, 1.0, 0.4, 0.25, 0.8];
        let all = [1.0, 1.0, 1.0, 1.2, 0.5, 0.3, 0.1, 0.06, 0.2];
        let b = Profile::base();
        match prop {
            "C01" => Profile {
                schemes: mlkem,
                w_key: [0.4, 0.4, 0.0, 0.0, 0.0, 0.3, 0.0, 0.0],
                w_migrate: 0.5,
                w_crash: 0.5,
                p_misroute: 0.03,
                p_tamper: 0.05,
                p_disk_fault: 0.05,
                p_ent_fault: 0.03,
                ..b
            },
            "C02" => Profile {
                schemes: mlkem,
                w_forge: 6.0,
                w_key: [0.4, 0.3, 0.0, 0.0, 0.0, 0.1, 0.0, 0.0],
                w_migrate: 0.3,
                w_crash: 0.2,
                p_tamper: 0.65,
                p_misroute: 0.12,
                p_dup: 0.6,
                ..b
            },
            "C03" => Profile {
                schemes: mlkem,
                w_keygen: 3.0,
                w_encap: 5.0,
                w_forge: 1.5,
                w_hostile: 0.8,
                w_key: [0.6, 1.6, 0.0, 0.6, 0.6, 0.6, 1.5, 1.0],
                w_migrate: 1.5,
                w_crash: 1.2,
                p_tamper: 0.2,
                p_disk_fault: 0.25,
                p_ent_fault: 0.02,
                ..b
            },
            "C04" => Profile {
                schemes: all,
                w_keygen: 1.2,
                w_encap: 2.0,
                w_forge: 4.0,
                w_hostile: 9.0,
                w_migrate: 0.6,
                w_crash: 0.3,
                p_disk_fault: 0.6,
                p_tamper: 0.6,
                p_misroute: 0.1,
                builds: [4.0, 2.0, 0.7, 0.5, 0.5, 0.5, 0.3, 0.3, 0.0],
                ..b
            },
            "C05" => Profile {
                schemes: all,
                w_keygen: 5.0,
                w_encap: 9.0,
                w_forge: 0.4,
                w_key: [0.2, 0.2, 0.1, 0.0, 0.0, 0.2, 0.0, 0.0],
                p_ent_fault: 0.35,
                p_os: 0.7,
                p_det: 0.0,
                p_dup: 0.5,
                builds: [4.0, 2.0, 0.5, 0.6, 0.6, 1.5, 0.4, 0.4, 0.0],
                ..b
            },
            "C06" => Profile {
                schemes: all,
                w_keygen: 6.0,
                w_encap: 8.0,
                p_os: 0.2,
                p_det: 0.15,
                p_pattern: 0.5,
                rerun: true,
                p_drop: 0.3,
                ..b
            },
            "C07" => Profile {
                schemes: all,
                w_keygen: 4.0,
                w_encap: 9.0,
                w_forge: 4.0,
                w_hostile: 0.8,
                w_key: [0.4, 0.6, 0.1, 0.2, 0.2, 0.5, 0.0, 0.0],
                p_tamper: 0.25,
                p_misroute: 0.05,
                p_dup: 0.5,
                p_ent_fault: 0.03,
                p_long: 0.05,
                max_width: 8,
                max_nodes: 2,
                p_marathon: 0.15,
                p_nested: 0.1,
                ..b
            },
            "C08" => Profile {
                schemes: [1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0],
                w_keygen: 0.5,
                w_encap: 0.5,
                w_timing: 4.0,
                p_marathon: 0.0,
                steps: (2, 6),
                p_long: 0.0,
                max_width: 3,
                max_nodes: 2,
                builds: [2.0, 4.0, 0.25, 0.7, 0.7, 0.7, 0.5, 0.5, 0.0],
                ..b
            },
            "C09" => Profile {
                schemes: [1.0, 1.0, 1.0, 1.5, 1.0, 0.6, 0.3, 0.2, 0.4],
                w_keygen: 0.3,
                w_encap: 0.3,
                w_erase: 8.0,
                p_marathon: 0.0,
                steps: (4, 14),
                p_long: 0.0,
                builds: [4.0, 0.0, 0.0, 2.0, 2.0, 1.0, 0.0, 1.0, 0.0],
                ..b
            },
            "C10" => Profile {
                schemes: xw,
                builds: [1.0, 1.0, 0.0, 0.0, 0.5, 0.5, 0.0, 0.0, 0.0],
                w_key: [0.4, 0.4, 0.0, 0.0, 0.0, 0.3, 0.0, 0.0],
                w_migrate: 0.5,
                w_crash: 0.5,
                p_os: 0.15,
                p_tamper: 0.05,
                p_misroute: 0.03,
                p_ent_fault: 0.03,
                ..b
            },
            "C11" => Profile {
                schemes: xw,
                builds: [1.0, 1.0, 0.0, 0.0, 0.5, 0.5, 0.0, 0.0, 0.0],
                w_forge: 5.0,
                w_key: [0.3, 0.2, 0.0, 0.0, 0.0, 0.1, 0.0, 0.0],
                p_tamper: 0.7,
                p_misroute: 0.12,
                p_dup: 0.6,
                ..b
            },
            "C12" => Profile {
                schemes: dh,
                w_forge: 4.0,
                w_hostile: 1.2,
                w_key: [0.4, 0.0, 1.2, 1.0, 0.5, 0.3, 0.0, 0.6],
                p_tamper: 0.2,
                p_misroute: 0.1,
                p_dup: 0.3,
                p_ent_fault: 0.03,
                ..b
            },
            "C13" => Profile {
                schemes: [1.0, 1.0, 1.0, 1.5, 0.3, 0.2, 0.1, 0.05, 0.1],
                builds: [1.5, 1.5, 0.4, 0.5, 0.5, 0.5, 0.3, 0.3, 2.5],
                w_keygen: 3.0,
                w_forge: 2.0,
                w_hostile: 1.0,
                w_migrate: 1.5,
                w_crash: 0.3,
                p_tamper: 0.25,
                p_misroute: 0.05,
                p_pattern: 0.4,
                min_nodes: 2,
                max_nodes: 5,
                ..b
            },
            "C14" => Profile {
                schemes: [1.2, 1.2, 1.2, 1.0, 0.4, 0.3, 0.1, 0.05, 0.1],
                builds: [2.0, 2.0, 0.8, 1.2, 1.0, 1.0, 0.8, 0.8, 0.0],
                w_keygen: 3.0,
                w_forge: 3.0,
                w_hostile: 3.0,
                w_migrate: 0.8,
                w_crash: 0.2,
                p_tamper: 0.4,
                p_pattern: 0.5,
                p_det: 0.3,
                mirror: true,
                min_nodes: 2,
                max_nodes: 4,
                p_dup: 0.2,
                ..b
            },
            "C15" => Profile {
                schemes: xw,
                builds: [1.0, 1.0, 0.0, 0.0, 0.5, 0.5, 0.0, 0.0, 0.0],
                w_keygen: 3.0,
                w_encap: 5.0,
                w_forge: 1.5,
                w_hostile: 1.5,
                w_key: [0.6, 1.6, 0.0, 1.0, 0.6, 0.6, 0.0, 1.8],
                w_migrate: 1.5,
                w_crash: 1.2,
                p_os: 0.2,
                p_tamper: 0.2,
                p_disk_fault: 0.2,
                ..b
            },
            "C20" => Profile {
                schemes: all,
                w_keygen: 3.0,
                w_encap: 7.0,
                w_forge: 3.0,
                w_hostile: 1.5,
                w_key: [0.6, 0.6, 0.2, 0.3, 0.3, 0.5, 0.5, 0.5],
                w_migrate: 0.6,
                w_crash: 0.3,
                p_os: 0.15,
                p_det: 0.1,
                p_tamper: 0.25,
                p_misroute: 0.05,
                p_ent_fault: 0.1,
                p_marathon: 0.2,
                ..b
            },
            _ => b,
        }
    }
}

pub fn build_has(b: Build, s: u32) -> bool {
    match b {
        Build::C | Build::D | Build::G | Build::H => matches!(s, 0..=2 | 4 | 5),
        _ => true,
    }
}

/// Secret-scalar edge values (big endian) per curve, for literal entropy.
fn edge_scalar(s: u32, r: &mut Rng) -> Option<String> {
    let n = match s {
        5 => "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
        6 => "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
        7 => "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409",
        8 => "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
        _ => return None,
    };
    let mut b = crate::kernel::unhex(n);
    let l = b.len() - 1;
    match r.below(6) {
        0 => {}                         // n: rejected
        1 => b[l] = b[l].wrapping_sub(1), // n-1
        2 => b[l] = b[l].wrapping_add(1), // n+1: rejected
        3 => {
            b.fill(0); // zero: rejected
        }
        4 => {
            b.fill(0);
            b[l] = 1;
        }
        _ => b.fill(0xff),
    }
    Some(hex(&b))
}

struct GKey {
    id: u32,
    s: u32,
    /// nodes that (should) hold it now
    at: Vec<u8>,
    disk: Vec<u8>,
    msgs: Vec<u32>,
}

/// Alterations light enough that the ciphertext still decrypts to the message that was sent, so
/// that only the comparison after re-encryption can tell: low bits of compressed coefficients.
pub fn gentle(s: u32, r: &mut Rng) -> Vec<Mut> {
    let p = model::params(if s == 3 { 1 } else { s });
    let cut = 256 * p.k * p.du;
    let mut c: Vec<u32> = vec![];
    if r.chance(0.8) {
        let b = r.below(3) as usize;
        c.extend((0..256 * p.k).map(|i| (i * p.du + b.min(i % 3)) as u32));
    }
    if c.is_empty() || r.chance(0.6) {
        c.extend((0..256).map(|i| (cut + i * p.dv) as u32));
    }
    if r.chance(0.5) {
        // in one lane of the words a comparison may work on
        let w = *r.pick(&[8u32, 16, 32, 32, 64, 64, 128]);
        let l = if r.chance(0.5) { w - 1 } else { r.below(w as u64) as u32 };
        let d: Vec<u32> = c.iter().copied().filter(|x| x % w == l).collect();
        if d.len() > 1 {
            c = d;
        }
    }
    let n = *r.pick(&[1usize, 1, 2, 2, 2, 3, 4, 8, 16, 64, 128, 255, 256, 256, 257]);
    let mut bytes = std::collections::BTreeSet::new();
    let mut v = vec![];
    for _ in 0..4 * n {
        let x = *r.pick(&c);
        if v.len() < n && bytes.insert(x / 8) {
            v.push(Mut::Flip(x));
        }
    }
    v
}

/// The components (offset, length) the standards define within each encoding.
fn ct_regions(s: u32) -> Vec<(u64, u64)> {
    let n = model::ct_len(s) as u64;
    match s {
        0..=2 => {
            let p = model::params(s);
            let u = (32 * p.du * p.k) as u64;
            vec![(0, u), (u, n - u)]
        }
        3 => vec![(0, 960), (960, 128), (0, 1088), (1088, 32), (1088, 32)],
        4 => vec![(0, n)],
        _ => vec![(0, 1), (1, n / 2), (1 + n / 2, n / 2), (0, n)],
    }
}

fn ek_regions(s: u32) -> Vec<(u64, u64)> {
    let n = model::ek_len(s) as u64;
    match s {
        0..=2 => vec![(0, n - 32), (n - 32, 32)],
        3 => vec![(0, 1152), (1152, 32), (1184, 32), (1184, 32)],
        _ => ct_regions(s),
    }
}

fn dk_regions(s: u32) -> Vec<(u64, u64)> {
    let n = model::dk_len(s) as u64;
    match s {
        0..=2 => {
            let e = model::ek_len(s) as u64;
            let d = n - 64 - e;
            vec![(0, d), (d, e - 32), (d + e - 32, 32), (d + e, 32), (d + e + 32, 32)]
        }
        _ => vec![(0, n)],
    }
}

fn region(v: &[(u64, u64)], r: &mut Rng) -> (u64, u64) {
    *r.pick(v)
}

/// Differences that cancel in a carelessly accumulated comparison of one component: the same bits
/// in several places, bytes whose differences add up to nothing, words that changed places.
fn cancelling(a: u64, n: u64, r: &mut Rng) -> Vec<Mut> {
    let any = r.below(n).max(1);
    let d = *r.pick(&[1u64, 1, 2, 4, 8, 8, 16, 32, 64, 136, any]) % n;
    let at = r.below(n);
    if r.chance(0.25) {
        let w = *r.pick(&[1u64, 2, 4, 8, 16, 32]);
        if n >= 2 * w {
            let (x, y) = (r.below(n / w) * w, r.below(n / w) * w);
            return vec![Mut::Swap((a + x) as u32, (a + y) as u32, w as u32)];
        }
    }
    let k = *r.pick(&[2u64, 2, 2, 3, 4, 8, 256]);
    let bits = if r.chance(0.8) { vec![if r.chance(0.5) { 7 } else { r.below(8) }] } else { vec![0, 1, 2, 3, 4, 5, 6, 7] };
    let mut v: Vec<u64> = vec![];
    for i in 0..k {
        for b in &bits {
            v.push(8 * (a + (at + i * d) % n) + b);
        }
    }
    v.sort();
    v.dedup();
    v.into_iter().map(|x| Mut::Flip(x as u32)).collect()
}

struct Gen {
    r: Rng,
    p: Profile,
    seed: u64,
    nodes: Vec<Build>,
    keys: Vec<GKey>,
    next: u32,
    shared: Vec<u64>,
    schemes: Vec<f64>,
    crashes: u32,
    ent_n: u64,
}

impl Gen {
    fn ent(&mut self, s: u32) -> EntSpec {
        self.ent_n += 1;
        let fresh = mix(self.seed, 0x1000 + self.ent_n);
        if !self.r.chance(self.p.p_pattern) {
            return EntSpec::stream(fresh);
        }
        let n = *self.r.pick(&[16u32, 31, 32, 33, 64, 64, 64]);
        let pat = match self.r.below(10) {
            0 => EntPat::Const(0, n),
            1 => EntPat::Const(0xff, n),
            2 => EntPat::Const(self.r.u64() as u8, n),
            3 => EntPat::Bits(vec![self.r.below(8 * n as u64) as u32], n),
            4 => EntPat::Bits((0..self.r.below(5)).map(|_| self.r.below(8 * n as u64) as u32).collect(), n),
            5 => EntPat::Period(*self.r.pick(&[1u32, 2, 4, 8, 16, 32]), 64),
            6 => match edge_scalar(s, &mut self.r) {
                Some(h) => EntPat::Lit(h),
                None => match crate::corpus::seed(s, &mut self.r) {
                    Some(d) => EntPat::Lit(hex(&d)),
                    None => EntPat::Period(32, 64),
                },
            },
            // the machine was rolled back: the same stream again
            _ => {
                if self.shared.is_empty() || self.r.chance(0.2) {
                    self.shared.push(fresh);
                    return EntSpec::stream(fresh);
                }
                return EntSpec::stream(*self.r.pick(&self.shared.clone()));
            }
        };
        EntSpec { seed: fresh, pat }
    }

    fn fault(&mut self, s: u32, p: f64, os: bool) -> EntFault {
        let mut f = EntFault::default();
        if os {
            if self.r.chance(p.max(0.2)) {
                let n = self.r.range(1, 6);
                for _ in 0..n {
                    let e = match self.r.below(10) {
                        0..=3 => OsEvent::Short(*self.r.pick(&[1u32, 1, 3, 8, 15, 31])),
                        4..=7 => OsEvent::Eintr,
                        8 => OsEvent::Ok,
                        _ => OsEvent::Eio,
                    };
                    f.os.push(e);
                }
            }
            return f;
        }
        if self.r.chance(p) {
            // X-Wing encapsulation draws twice, ML-KEM key generation draws twice
            f.fail = Some((*self.r.pick(&[0u32, 0, 1, 1, 2]), *self.r.pick(&[0u32, 1000, 1000, 500, 30, 970])));
        }
        if self.r.chance(0.06 + p / 2.0) {
            f.stall = Some((*self.r.pick(&[0u32, 0, 1]), self.r.range(1, 400_000)));
        }
        if self.r.chance(self.p.p_nested) {
            // schemes of one family share what state there is
            let t = match s {
                0..=2 if self.r.chance(0.4) => self.r.below(3) as u32,
                3 if self.r.chance(0.2) => 1,
                _ => s,
            };
            f.nested = Some((*self.r.pick(&[0u32, 0, 1]), t, self.r.u64()));
        }
        f
    }

    fn muts_ct(&mut self, s: u32, other: Option<u32>) -> Vec<Mut> {
        let r = &mut self.r;
        let n = model::ct_len(s) as u64;
        let bits = 8 * n;
        if s < 4 && r.chance(0.15) {
            return gentle(s, r);
        }
        if r.chance(0.12) {
            let (a, l) = if r.chance(0.6) { (0, n) } else { region(&ct_regions(s), r) };
            return cancelling(a, l, r);
        }
        if r.chance(0.06) {
            // a component that also occurs elsewhere: in the recipient's key, or in the message itself
            let (a, l) = region(&ct_regions(s), r);
            let (b, m) = region(&ek_regions(s), r);
            let same: Vec<(u64, u64)> = ek_regions(s).into_iter().filter(|x| x.1 == l).collect();
            let (b, m) = if same.is_empty() || r.chance(0.2) { (b, m) } else { *r.pick(&same) };
            let l = l.min(m) as u32;
            return vec![if r.chance(0.8) {
                Mut::Graft(OWN, b as u32, a as u32, l)
            } else {
                Mut::Copy(r.below(n) as u32, a as u32, l)
            }];
        }
        let k = if r.chance(0.8) { 1 } else { r.range(2, 4) };
        let mut v: Vec<Mut> = (0..k)
            .map(|_| match r.below(20) {
                0..=7 => Mut::Flip(r.below(bits) as u32),
                // the ends of the component ciphertexts
                8 => Mut::Flip(r.below(8.min(bits)) as u32),
                9 => Mut::Flip((bits - 1 - r.below(16)) as u32),
                10 => {
                    let cut = match s {
                        0..=2 => (32 * model::params(s).du * model::params(s).k) as u64,
                        3 => *r.pick(&[960u64, 1088]),
                        _ => n / 2,
                    };
                    Mut::Flip((8 * cut + r.below(16) - 8).min(bits - 1) as u32)
                }
                11 => Mut::Set(r.below(n) as u32, *r.pick(&[0u8, 0xff, 1, 0x80])),
                12 => Mut::Zero(r.below(n) as u32, r.range(1, n) as u32),
                13 => Mut::Ones(r.below(n) as u32, r.range(1, n) as u32),
                14 => Mut::Swap(r.below(n) as u32, r.below(n) as u32, r.range(1, 40) as u32),
                15 => Mut::ScrambleFrom(r.below(n) as u32, r.u64()),
                16 => Mut::Scramble(r.u64()),
                17 | 18 if other.is_some() => {
                    let a = if s == 3 && r.chance(0.6) { 1088 } else { r.below(n) };
                    if r.chance(0.5) {
                        Mut::Splice(other.unwrap(), a as u32, n as u32)
                    } else {
                        Mut::Splice(other.unwrap(), 0, a.max(1) as u32)
                    }
                }
                _ => Mut::Flip(r.below(bits) as u32),
            })
            .collect();
        if r.chance(0.03) {
            v.push(if r.chance(0.5) { Mut::Trunc(r.range(1, 40) as u32) } else { Mut::Extend(r.range(1, 40) as u32, 0) });
        }
        // DH points: most flips leave the curve; prefer whole-value changes there
        v
    }

    fn muts_key(&mut self, s: u32, dk: bool) -> Vec<Mut> {
        let others: Vec<u32> = self.keys.iter().filter(|k| k.s == s).map(|k| k.id).collect();
        let r = &mut self.r;
        let n = if dk { model::dk_len(s) } else { model::ek_len(s) } as u64;
        let regions = if dk { dk_regions(s) } else { ek_regions(s) };
        if r.chance(0.15) {
            let (a, l) = region(&regions, r);
            return cancelling(a, l, r);
        }
        if r.chance(0.08) {
            let (a, l) = region(&regions, r);
            let (b, m) = region(&regions, r);
            return vec![if r.chance(0.5) {
                Mut::Swap(a as u32, b as u32, l.min(m) as u32)
            } else {
                Mut::Copy(a as u32, b as u32, l.min(m) as u32)
            }];
        }
        if others.len() > 1 && r.chance(0.1) {
            let (a, l) = region(&regions, r);
            return vec![Mut::Splice(*r.pick(&others), a as u32, l as u32)];
        }
        let k = if r.chance(0.7) { 1 } else { r.range(2, 5) };
        (0..k)
            .map(|_| match r.below(14) {
                0..=3 => Mut::Flip(r.below(8 * n) as u32),
                4 => Mut::Flip((8 * n - 1 - r.below((8 * n).min(520))) as u32),
                5 => Mut::Set(r.below(n) as u32, *r.pick(&[0u8, 0xff, 1, 0x80])),
                6 => Mut::Zero(r.below(n) as u32, r.range(1, n) as u32),
                7 => Mut::Ones(r.below(n) as u32, r.range(1, n) as u32),
                8 | 9 => Mut::AddQ(r.below(n * 8 / 12) as u32),
                10 => Mut::ScrambleFrom(r.below(n) as u32, r.u64()),
                11 => Mut::Swap(r.below(n) as u32, r.below(n) as u32, r.range(1, 64) as u32),
                12 => Mut::Scramble(r.u64()),
                _ => Mut::Flip(r.below(8 * n) as u32),
            })
            .collect()
    }

    fn disk(&mut self) -> DiskFault {
        if !self.r.chance(self.p.p_disk_fault) {
            return DiskFault::None;
        }
        match self.r.below(7) {
            0 => DiskFault::Lost,
            6 => DiskFault::Stale(self.r.below(1000) as u32, self.r.chance(0.6)),
            1 | 2 => DiskFault::Torn(self.r.below(1000) as u32),
            3 => DiskFault::Short(self.r.below(1000) as u32),
            _ => DiskFault::Rot((0..self.r.range(1, 3)).map(|_| self.r.below(1 << 20) as u32).collect()),
        }
    }

    fn delay(&mut self) -> u64 {
        match self.r.below(6) {
            0 => 0,
            1 => self.r.range(0, 3_000_000),
            _ => self.r.exp(60_000.0),
        }
    }

    /// (node, scheme) pairs where the node's build offers the scheme
    fn pick_scheme(&mut self) -> Option<(u8, u32)> {
        for _ in 0..20 {
            let s = self.r.weighted(&self.schemes.clone()) as u32;
            let c: Vec<u8> =
                (0..self.nodes.len()).filter(|&n| build_has(self.nodes[n], s)).map(|n| n as u8).collect();
            if !c.is_empty() {
                return Some((*self.r.pick(&c), s));
            }
        }
        None
    }

    fn pick_key(&mut self) -> Option<usize> {
        let c: Vec<usize> = (0..self.keys.len()).filter(|&k| !self.keys[k].at.is_empty()).collect();
        if c.is_empty() {
            return None;
        }
        // favour recent keys, but come back to old ones
        Some(if self.r.chance(0.4) { c[c.len() - 1] } else { *self.r.pick(&c) })
    }

    fn keygen(&mut self) -> Option<(u8, Op)> {
        let (node, s) = self.pick_scheme()?;
        let id = self.next;
        self.next += 1;
        let b = self.nodes[node as usize];
        let src = if b.os() && s == 3 && self.r.chance(self.p.p_os) {
            Src::Os(self.r.below(2) as u32)
        } else if b.det() && s < 3 && self.r.chance(self.p.p_det) {
            Src::Det
        } else {
            Src::Rng
        };
        let ent = self.ent(s);
        let fault = match src {
            Src::Os(_) => self.fault(s, self.p.p_ent_fault, true),
            Src::Det => EntFault::default(),
            Src::Rng if b == Build::Ref => EntFault::default(),
            Src::Rng => self.fault(s, self.p.p_ent_fault, false),
        };
        let disk = (!model::is_dh(s) && self.r.chance(0.8)).then(|| self.disk());
        let mut k = GKey { id, s, at: vec![node], disk: vec![], msgs: vec![] };
        if disk.is_some() {
            k.disk.push(node);
        }
        self.keys.push(k);
        Some((node, Op::KeyGen { key: id, s, src, ent, fault, disk }))
    }

    fn hostile_spec(&mut self, s: u32, dk: bool) -> BSpec {
        let base: Vec<u32> = self.keys.iter().filter(|k| k.s == s).map(|k| k.id).collect();
        match self.r.below(12) {
            0 => BSpec::Rand(self.r.u64()),
            1 => BSpec::Fill(*self.r.pick(&[0u8, 0xff, 0x01, 0x80, 0x55])),
            2..=4 => BSpec::Coefs(self.r.u64()),
            5 => BSpec::AllCoef(*self.r.pick(&[0u16, 1, 1664, 1665, 3328, 3329, 3330, 4094, 4095])),
            6 if !dk => BSpec::Hex(hex(&crate::corpus::hostile_ek(s, &mut self.r))),
            7 => {
                let n = if dk { model::dk_len(s) } else { model::ek_len(s) } as u64;
                let d = *self.r.pick(&[0u64, 1, n / 2, n - 1, n + 1, n + 32]);
                BSpec::Hex(hex(&Rng::new(self.r.u64()).bytes(d as usize)))
            }
            _ if !base.is_empty() => {
                let b = *self.r.pick(&base);
                let m = self.muts_key(s, dk);
                BSpec::Base(b, m)
            }
            _ => BSpec::Coefs(self.r.u64()),
        }
    }

    fn marathon(&mut self) -> Option<(u8, Op)> {
        let (node, s) = self.pick_scheme()?;
        let b = self.nodes[node as usize];
        if b == Build::Ref {
            return None;
        }
        let how = self.r.below(crate::special::MARATHONS.len() as u64) as u32;
        let mut n = *self.r.pick(&[40u32, 130, 270, 300, 530, 1_100]);
        if s == 4 && self.r.chance(0.3) {
            n *= 4;
        }
        if matches!(b, Build::B | Build::E) && s == 0 && how < 2 && self.r.chance(0.02) {
            n = 66_000;
        }
        if b == Build::C || s > 4 {
            n /= 4;
        }
        if matches!(s, 6 | 7) {
            n /= 4;
        }
        let ent = EntSpec::stream(self.r.u64());
        Some((node, Op::Marathon { s, how, n, ent }))
    }

    fn step(&mut self) -> Option<Vec<(u8, Op)>> {
        let p = self.p.clone();
        let live = self.keys.iter().any(|k| !k.at.is_empty());
        let l = if live { 1.0 } else { 0.0 };
        let mut w = vec![
            p.w_keygen, p.w_encap * l, p.w_forge * l, p.w_hostile, p.w_migrate * l, p.w_crash * l, p.w_erase,
            p.w_timing,
        ];
        w.extend(p.w_key.iter().map(|x| x * l));
        match self.r.weighted(&w) {
            0 => Some(vec![self.keygen()?]),
            1 => {
                let k = self.pick_key()?;
                let (id, s, at) = (self.keys[k].id, self.keys[k].s, self.keys[k].at.clone());
                let msg = self.next;
                self.next += 1;
                let senders: Vec<u8> = (0..self.nodes.len() as u8)
                    .filter(|&n| build_has(self.nodes[n as usize], s))
                    .collect();
                let node = *self.r.pick(&senders);
                let wire = !at.contains(&node) || self.r.chance(0.5);
                let det = self.nodes[node as usize].det() && s < 3 && self.r.chance(p.p_det);
                let ent = self.ent(s);
                let fault = if det || self.nodes[node as usize] == Build::Ref {
                    EntFault::default()
                } else {
                    self.fault(s, p.p_ent_fault, false)
                };
                let mut dels = vec![];
                let mut n = 1;
                while n < 6 && self.r.chance(p.p_dup) {
                    n += 1;
                }
                for _ in 0..n {
                    let mut d = Del {
                        node: *self.r.pick(&at),
                        delay: self.delay(),
                        misroute: None,
                        muts: vec![],
                        dropped: self.r.chance(p.p_drop),
                    };
                    if self.r.chance(p.p_tamper) {
                        let other = self.keys[k].msgs.last().copied();
                        d.muts = self.muts_ct(s, other);
                    }
                    if self.r.chance(p.p_misroute) {
                        let c: Vec<usize> = (0..self.keys.len())
                            .filter(|&j| j != k && self.keys[j].s == s && !self.keys[j].at.is_empty())
                            .collect();
                        if !c.is_empty() {
                            let j = *self.r.pick(&c);
                            d.misroute = Some(self.keys[j].id);
                            d.node = *self.r.pick(&self.keys[j].at.clone());
                        }
                    }
                    dels.push(d);
                }
                self.keys[k].msgs.push(msg);
                Some(vec![(node, Op::Encap { msg, key: id, wire, det, ent, fault, dels })])
            }
            2 => {
                let k = self.pick_key()?;
                let (id, s, at) = (self.keys[k].id, self.keys[k].s, self.keys[k].at.clone());
                let m = self.keys[k].msgs.clone();
                let spec = match self.r.below(10) {
                    0 => BSpec::Rand(self.r.u64()),
                    1 => BSpec::Fill(*self.r.pick(&[0u8, 0xff, 0x55])),
                    2 if model::is_dh(s) || s == 3 && self.r.chance(0.5) => BSpec::Aim(self.r.u64()),
                    2 | 3 if model::is_dh(s) || s == 3 => {
                        BSpec::Hex(hex(&crate::corpus::hostile_ct(s, &mut self.r)))
                    }
                    _ if !m.is_empty() => {
                        let o = m.first().copied();
                        let b = *self.r.pick(&m);
                        let mu = self.muts_ct(s, o);
                        BSpec::Base(b, mu)
                    }
                    _ => BSpec::Hex(hex(&crate::corpus::hostile_ct(s, &mut self.r))),
                };
                Some(vec![(*self.r.pick(&at), Op::Forge { key: id, spec })])
            }
            3 => {
                let (node, s) = self.pick_scheme()?;
                if self.nodes[node as usize] == Build::Ref {
                    return None;
                }
                let dk = !model::is_dh(s) && self.r.chance(0.5);
                let spec = self.hostile_spec(s, dk);
                let ent = self.ent(s);
                Some(vec![(node, Op::Hostile { s, dk, spec, ent })])
            }
            4 => {
                let k = (0..self.keys.len()).filter(|&k| !self.keys[k].disk.is_empty()).collect::<Vec<_>>();
                if k.is_empty() {
                    return None;
                }
                let k = *self.r.pick(&k);
                let s = self.keys[k].s;
                let from = *self.r.pick(&self.keys[k].disk.clone());
                let c: Vec<u8> = (0..self.nodes.len() as u8)
                    .filter(|&n| n != from && build_has(self.nodes[n as usize], s))
                    .collect();
                if c.is_empty() {
                    return None;
                }
                let to = *self.r.pick(&c);
                let disk = self.disk();
                let id = self.keys[k].id;
                self.keys[k].disk.push(to);
                self.keys[k].at.push(to);
                Some(vec![(from, Op::Migrate { key: id, to, disk }), (to, Op::Recover { key: id })])
            }
            5 => {
                if self.crashes >= 3 {
                    return None;
                }
                let node = self.r.idx(self.nodes.len());
                if self.nodes[node] == Build::Ref {
                    return None;
                }
                self.crashes += 1;
                let build = if self.r.chance(0.5) {
                    self.nodes[node]
                } else {
                    let mut w = p.builds;
                    w[8] = 0.0;
                    BUILDS[self.r.weighted(&w)]
                };
                self.nodes[node] = build;
                let mut v = vec![(node as u8, Op::Crash { build })];
                for k in self.keys.iter_mut() {
                    let had = k.at.contains(&(node as u8));
                    k.at.retain(|&n| n != node as u8);
                    if k.disk.contains(&(node as u8)) && build_has(build, k.s) && (had || self.r.chance(0.5)) {
                        k.at.push(node as u8);
                        v.push((node as u8, Op::Recover { key: k.id }));
                    }
                }
                Some(v)
            }
            6 => {
                let (node, s) = self.pick_scheme()?;
                let b = self.nodes[node as usize];
                let how = match self.r.below(8) {
                    0 | 1 => EraseHow::Plain,
                    2 => EraseHow::Clone,
                    3 => EraseHow::AfterUse,
                    4 if s == 4 && matches!(b, Build::A | Build::E) => EraseHow::Wipe,
                    _ => EraseHow::Unwind(self.r.below(2) as u32),
                };
                let ct = s == 3 && self.r.chance(0.25);
                let ent = self.ent(s);
                Some(vec![(node, Op::Erase { s, how, ent, ct })])
            }
            7 => {
                let (node, s) = self.pick_scheme()?;
                let ent = EntSpec::stream(self.r.u64());
                let n = if self.nodes[node as usize] == Build::C { 12 } else { 24 };
                Some(vec![(node, Op::Timing { s, ent, n, how: self.r.below(crate::special::FORGERIES) as u32 })])
            }
            n => {
                let k = self.pick_key()?;
                let (id, s, at) = (self.keys[k].id, self.keys[k].s, self.keys[k].at.clone());
                let node = *self.r.pick(&at);
                if self.nodes[node as usize] == Build::Ref {
                    return None;
                }
                let what = match n - 8 {
                    0 => KOp::Clone,
                    1 => KOp::Reload,
                    2 => KOp::Rewrap,
                    3 => KOp::Forms,
                    4 => {
                        let c: Vec<u32> = self
                            .keys
                            .iter()
                            .filter(|j| j.s == s && j.at.contains(&node))
                            .map(|j| j.id)
                            .collect();
                        KOp::Eq(*self.r.pick(&c))
                    }
                    5 => KOp::Drop,
                    6 => KOp::EqMut(self.muts_key(s, true)),
                    _ if s > 4 => KOp::EkMut(if self.r.chance(0.6) { vec![] } else { self.muts_key(s, false) }),
                    _ => KOp::EkMut(self.muts_key(s, false)),
                };
                if model::is_dh(s) && matches!(what, KOp::Reload | KOp::EqMut(_)) {
                    return None;
                }
                Some(vec![(node, Op::Key { key: id, what })])
            }
        }
    }
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Profile::of(prop);
    // swarm: each run switches some of the fault kinds and operations off
    for x in [
        &mut p.w_crash, &mut p.w_migrate, &mut p.p_ent_fault, &mut p.p_disk_fault, &mut p.p_misroute, &mut p.p_drop,
        &mut p.p_dup, &mut p.p_pattern,
    ] {
        if r.chance(0.25) {
            *x = 0.0;
        }
    }
    for x in p.w_key.iter_mut() {
        if r.chance(0.3) {
            *x = 0.0;
        }
    }
    if prop == "C05" && p.p_ent_fault == 0.0 {
        p.p_ent_fault = 0.3;
    }
    let nn = r.range(p.min_nodes, p.max_nodes) as usize;
    let mut nodes: Vec<Build> = (0..nn).map(|_| BUILDS[r.weighted(&p.builds)]).collect();
    if prop == "C13" {
        // at least one of each kind
        nodes[0] = Build::Ref;
        nodes[1] = BUILDS[r.weighted(&p.builds[..8])];
    }
    if prop == "C14" {
        while nodes[1] == nodes[0] {
            nodes[1] = BUILDS[r.weighted(&p.builds[..8])];
        }
    }
    // few schemes per run, so that keys of one scheme meet
    let mut schemes = p.schemes.to_vec();
    // a crowd: one scheme, everything at once, cut at rare places
    let crowd = p.max_width > 3 && r.chance(if prop == "C07" { 0.3 } else { 0.1 });
    if crowd || r.chance(0.7) {
        let one = r.weighted(&schemes);
        let keep = [one, if crowd { one } else { r.weighted(&schemes) }];
        for (i, s) in schemes.iter_mut().enumerate() {
            if !keep.contains(&i) {
                *s = 0.0;
            }
        }
    }
    // the slow curves: shorter
    let slow = schemes[6] + schemes[7] > 0.0 && schemes[0] + schemes[1] + schemes[2] + schemes[3] == 0.0;
    let mut n = r.range(p.steps.0, p.steps.1);
    if r.chance(p.p_long) && !slow {
        n *= 12;
    }
    if nodes.contains(&Build::C) {
        n = n.min(40);
    }
    let gap = if crowd { 0.0 } else { *r.pick(&[0.0, 0.0, 5_000.0, 50_000.0, 400_000.0]) };
    let width = r.range(if crowd { 3 } else { 1 }, p.max_width) as u32;
    let slice = *r.pick(&[0u64, 300, 2_000, 10_000, 50_000]);
    let mut sched = Sched {
        seed: r.u64(),
        width,
        slice: if width == 1 { 0 } else { slice },
        mode: r.below(2) as u8,
        limit: *r.pick(&[30u64, 300, 3_000]),
        place: if r.chance(0.6) { r.u64() | 1 } else { 0 },
        watch: if crowd || width > 1 && r.chance(0.4) { *r.pick(&[4u64, 16, 64, 256]) } else { 0 },
        watch_seed: r.u64(),
        host: 0,
    };
    let mut g = Gen {
        seed: r.u64(),
        r,
        p: p.clone(),
        nodes: nodes.clone(),
        keys: vec![],
        next: 0,
        shared: vec![],
        schemes,
        crashes: 0,
        ent_n: 0,
    };
    let mut steps = vec![];
    let mut t = 0u64;
    let mut tries = 0;
    if p.w_erase + p.w_timing == 0.0 {
        for _ in 0..g.r.range(1, 2) {
            if let Some((node, op)) = g.keygen() {
                steps.push(Step { at: t, node, op });
            }
        }
    }
    while (steps.len() as u64) < n && tries < 6 * n {
        tries += 1;
        if let Some(v) = g.step() {
            for (node, op) in v {
                steps.push(Step { at: t, node, op });
                if gap > 0.0 {
                    t += g.r.exp(gap);
                }
            }
        }
    }
    if g.r.chance(p.p_marathon) {
        if let Some((node, op)) = g.marathon() {
            let i = g.r.idx(steps.len() + 1);
            let at = if i < steps.len() { steps[i].at } else { t };
            steps.insert(i, Step { at, node, op });
        }
    }
    if prop == "C20" {
        // (every one of them often enough alone)
        let mut g = Rng::new(mix(seed, 0x686f));
        let bits = match g.below(3) {
            0 => 31,
            1 => 1 << g.below(5),
            _ => g.below(32),
        };
        sched.host = if bits == 0 { 0 } else { g.u64() << 5 | bits };
    }
    Plan { prop: prop.into(), nodes, sched, mirror: p.mirror, rerun: p.rerun, steps }
}
