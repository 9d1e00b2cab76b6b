//! Hostile public values that random bytes do not reach.

use crate::kernel::unhex;
use crate::model;
use crate::rng::Rng;

/// Low-order and non-canonical u-coordinates.
pub const X25519_BAD: [&str; 12] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "0000000000000000000000000000000000000000000000000000000000000080",
    "0100000000000000000000000000000000000000000000000000000000000080",
    "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "0900000000000000000000000000000000000000000000000000000000000080",
    "0900000000000000000000000000000000000000000000000000000000000000",
];

/// Matrix seeds whose rejection sampling consumes unusually much (or little) of the XOF output;
/// found by search (tools/rho_search.c), checked by the self-test.
pub const RHO: &[&str] = include!("rho.in");

/// Key generation seeds (d for k = 2, 3, 4; the X-Wing seed for k = 0) that lead to such a matrix.
pub const SEEDS: &[(usize, &str)] = include!("seeds.in");

/// An extreme seed for key generation in this scheme, as the bytes it draws first.
pub fn seed(s: u32, r: &mut Rng) -> Option<Vec<u8>> {
    let k = match s {
        0..=2 => model::params(s).k,
        3 => 0,
        _ => return None,
    };
    let c: Vec<&str> = SEEDS.iter().filter(|x| x.0 == k).map(|x| x.1).collect();
    if c.is_empty() {
        return None;
    }
    Some(unhex(*r.pick(&c)))
}

/// (bytes taken from the XOF, longest run of rejected candidates) of entry (0, 0) of the matrix
pub fn extremity(rho: &[u8]) -> (usize, usize) {
    let (_, used) = model::sample_ntt(rho, 0, 0);
    let mut b = vec![0; used];
    crate::keccak::Sponge::shake128().absorb(rho).absorb(&[0, 0]).squeeze(&mut b);
    let (mut run, mut max) = (0, 0);
    for c in b.chunks(3) {
        for v in [c[0] as u32 + 256 * (c[1] as u32 % 16), c[1] as u32 / 16 + 16 * c[2] as u32] {
            run = if v < model::Q { 0 } else { run + 1 };
            max = max.max(run);
        }
    }
    (used, max)
}

fn rho(r: &mut Rng) -> Vec<u8> {
    if RHO.is_empty() || r.chance(0.3) {
        return r.bytes(32);
    }
    unhex(*r.pick(RHO))
}

/// An X25519 public value out of the ordinary: of low order, or another name (or nearly) of a small
/// one.
pub fn x25519_odd(r: &mut Rng) -> Vec<u8> {
    let top = if r.chance(0.3) { 0x80 } else { 0 };
    match r.below(8) {
        // 2^255 - 19 and up
        0 | 1 => {
            let mut v = vec![0xff; 32];
            v[0] = 0xed + r.below(19) as u8;
            v[31] = 0x7f | top;
            v
        }
        // a little less
        2 => {
            let mut v = vec![0xff; 32];
            v[0] = 0xec - r.below(20) as u8;
            v[31] = 0x7f | top;
            v
        }
        3 => {
            let mut v = vec![0; 32];
            v[0] = r.below(24) as u8;
            v[31] = top;
            v
        }
        _ => unhex(*r.pick(&X25519_BAD)),
    }
}

pub fn hostile_ek(s: u32, r: &mut Rng) -> Vec<u8> {
    match s {
        0..=2 => {
            let n = 384 * model::params(s).k;
            let mut v = r.bytes(n);
            if r.chance(0.3) {
                v = model::canonical_ek(model::params(s), &[v, vec![0; 32]].concat())[..n].to_vec();
            }
            v.extend(rho(r));
            v
        }
        3 => {
            let mut v = r.bytes(1152);
            if r.chance(0.6) {
                v = model::canonical_ek(model::params(1), &[v, vec![0; 32]].concat())[..1152].to_vec();
            }
            v.extend(rho(r));
            v.extend(x25519_odd(r));
            v
        }
        _ => hostile_ct(s, r),
    }
}

pub fn hostile_ct(s: u32, r: &mut Rng) -> Vec<u8> {
    match s {
        0..=2 => {
            // all u / v fields at one boundary value
            let p = model::params(s);
            let u = *r.pick(&[0u32, 1, (1 << p.du) - 1, 1 << (p.du - 1), (1 << (p.du - 1)) - 1]);
            let v = *r.pick(&[0u32, 1, (1 << p.dv) - 1, 1 << (p.dv - 1), (1 << (p.dv - 1)) - 1]);
            let mut o = vec![];
            for _ in 0..p.k {
                o.extend(model::byte_encode(p.du, &[u; 256]));
            }
            o.extend(model::byte_encode(p.dv, &[v; 256]));
            o
        }
        3 => {
            let mut v = r.bytes(1088);
            v.extend(x25519_odd(r));
            v
        }
        4 => x25519_odd(r),
        _ => {
            let n = model::ek_len(s);
            match r.below(6) {
                0 => vec![0],                // the identity, as SEC1
                1 => r.bytes(n),             // junk
                2 => {
                    let mut v = r.bytes(n);
                    v[0] = 4;
                    v
                }
                3 => {
                    // compressed form with random x: on the curve half of the time
                    let mut v = r.bytes(n.div_ceil(2));
                    v[0] = 2 + (v[0] & 1);
                    if s == 7 {
                        v[1] &= 1;
                    }
                    v
                }
                4 => {
                    // compressed small x
                    let mut v = vec![0; n.div_ceil(2)];
                    v[0] = 2 + r.below(2) as u8;
                    let l = v.len() - 1;
                    v[l] = r.below(20) as u8;
                    v
                }
                _ => {
                    let sk = r.bytes(128 * 66);
                    model::dh_keygen(s, &sk).map(|x| x.1).unwrap_or_default()
                }
            }
        }
    }
}
