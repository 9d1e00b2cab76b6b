//! Reference models: ML-KEM written from FIPS 203, X-Wing from draft-connolly-cfrg-xwing-kem-04,
//! and raw (EC)DH through the curve crates the repository itself trusts.
//! Nothing here shares code with the crates under test.

use crate::keccak::*;

pub const Q: u32 = 3329;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Params {
    pub k: usize,
    pub eta1: usize,
    pub eta2: usize,
    pub du: usize,
    pub dv: usize,
}
pub const P512: Params = Params { k: 2, eta1: 3, eta2: 2, du: 10, dv: 4 };
pub const P768: Params = Params { k: 3, eta1: 2, eta2: 2, du: 10, dv: 4 };
pub const P1024: Params = Params { k: 4, eta1: 2, eta2: 2, du: 11, dv: 5 };

impl Params {
    pub fn ek_len(&self) -> usize {
        384 * self.k + 32
    }
    pub fn dk_len(&self) -> usize {
        768 * self.k + 96
    }
    pub fn ct_len(&self) -> usize {
        32 * (self.du * self.k + self.dv)
    }
}

type Poly = [u32; 256];

fn pow_mod(b: u32, mut e: u32) -> u32 {
    let (mut r, mut b) = (1u64, b as u64);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q as u64;
        }
        b = b * b % Q as u64;
        e >>= 1;
    }
    r as u32
}

fn bitrev7(i: u32) -> u32 {
    i.reverse_bits() >> 25
}

struct Tables {
    zeta: [u32; 128],
    gamma: [u32; 128],
}
fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables { zeta: [0; 128], gamma: [0; 128] };
        for i in 0..128u32 {
            t.zeta[i as usize] = pow_mod(17, bitrev7(i));
            t.gamma[i as usize] = pow_mod(17, 2 * bitrev7(i) + 1);
        }
        t
    })
}

fn ntt(f: &Poly) -> Poly {
    let t = tables();
    let mut f = *f;
    let mut i = 1;
    let mut len = 128;
    while len >= 2 {
        let mut start = 0;
        while start < 256 {
            let z = t.zeta[i];
            i += 1;
            for j in start..start + len {
                let x = z * f[j + len] % Q;
                f[j + len] = (f[j] + Q - x) % Q;
                f[j] = (f[j] + x) % Q;
            }
            start += 2 * len;
        }
        len /= 2;
    }
    f
}

fn intt(f: &Poly) -> Poly {
    let t = tables();
    let mut f = *f;
    let mut i = 127;
    let mut len = 2;
    while len <= 128 {
        let mut start = 0;
        while start < 256 {
            let z = t.zeta[i];
            i -= 1;
            for j in start..start + len {
                let x = f[j];
                f[j] = (x + f[j + len]) % Q;
                f[j + len] = z * ((f[j + len] + Q - x) % Q) % Q;
            }
            start += 2 * len;
        }
        len *= 2;
    }
    for x in f.iter_mut() {
        *x = *x * 3303 % Q;
    }
    f
}

fn mul_ntt(a: &Poly, b: &Poly) -> Poly {
    let t = tables();
    let mut c = [0; 256];
    for i in 0..128 {
        let (a0, a1, b0, b1) = (a[2 * i], a[2 * i + 1], b[2 * i], b[2 * i + 1]);
        c[2 * i] = (a0 * b0 + (a1 * b1 % Q) * t.gamma[i]) % Q;
        c[2 * i + 1] = (a0 * b1 + a1 * b0) % Q;
    }
    c
}

fn add(a: &Poly, b: &Poly) -> Poly {
    core::array::from_fn(|i| (a[i] + b[i]) % Q)
}
fn sub(a: &Poly, b: &Poly) -> Poly {
    core::array::from_fn(|i| (a[i] + Q - b[i]) % Q)
}

pub fn byte_encode(d: usize, f: &Poly) -> Vec<u8> {
    let mut out = vec![0u8; 32 * d];
    let (mut acc, mut n, mut o) = (0u64, 0, 0);
    for &x in f {
        acc |= (x as u64) << n;
        n += d;
        while n >= 8 {
            out[o] = acc as u8;
            o += 1;
            acc >>= 8;
            n -= 8;
        }
    }
    out
}

pub fn byte_decode(d: usize, b: &[u8]) -> Poly {
    let mut f = [0u32; 256];
    let (mut acc, mut n, mut i) = (0u64, 0, 0);
    for &x in b {
        acc |= (x as u64) << n;
        n += 8;
        while n >= d && i < 256 {
            let v = (acc & ((1 << d) - 1)) as u32;
            f[i] = if d == 12 { v % Q } else { v };
            i += 1;
            acc >>= d;
            n -= d;
        }
    }
    f
}

fn compress(d: usize, x: u32) -> u32 {
    // round(2^d / q * x) mod 2^d, ties cannot occur (q odd)
    (((x << (d + 1)) + Q) / (2 * Q)) & ((1 << d) - 1)
}
fn decompress(d: usize, y: u32) -> u32 {
    (y * Q + (1 << (d - 1))) >> d
}
fn compress_poly(d: usize, f: &Poly) -> Poly {
    core::array::from_fn(|i| compress(d, f[i]))
}
fn decompress_poly(d: usize, f: &Poly) -> Poly {
    core::array::from_fn(|i| decompress(d, f[i]))
}

/// SampleNTT; also returns how many XOF bytes were consumed.
pub fn sample_ntt(rho: &[u8], i: u8, j: u8) -> (Poly, usize) {
    let mut s = Sponge::shake128().absorb(rho).absorb(&[i, j]);
    let mut f = [0u32; 256];
    let (mut n, mut used) = (0, 0);
    while n < 256 {
        let mut c = [0u8; 3];
        s.squeeze(&mut c);
        used += 3;
        let d1 = c[0] as u32 + 256 * (c[1] as u32 % 16);
        let d2 = c[1] as u32 / 16 + 16 * c[2] as u32;
        if d1 < Q {
            f[n] = d1;
            n += 1;
        }
        if d2 < Q && n < 256 {
            f[n] = d2;
            n += 1;
        }
    }
    (f, used)
}

fn sample_cbd(eta: usize, seed: &[u8], n: u8) -> Poly {
    let mut b = vec![0u8; 64 * eta];
    Sponge::shake256().absorb(seed).absorb(&[n]).squeeze(&mut b);
    let bit = |i: usize| (b[i / 8] >> (i % 8)) as u32 & 1;
    core::array::from_fn(|i| {
        let x: u32 = (0..eta).map(|j| bit(2 * i * eta + j)).sum();
        let y: u32 = (0..eta).map(|j| bit(2 * i * eta + eta + j)).sum();
        (x + Q - y) % Q
    })
}

fn matrix(p: Params, rho: &[u8]) -> Vec<Vec<Poly>> {
    // A[i][j] = SampleNTT(rho || j || i)
    (0..p.k)
        .map(|i| (0..p.k).map(|j| sample_ntt(rho, j as u8, i as u8).0).collect())
        .collect()
}

/// (ek, dk) of ML-KEM.KeyGen_internal(d, z)
pub fn keygen(p: Params, d: &[u8], z: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let g = sha3_512(&[d, &[p.k as u8]]);
    let (rho, sigma) = g.split_at(32);
    let a = matrix(p, rho);
    let s: Vec<Poly> = (0..p.k).map(|i| ntt(&sample_cbd(p.eta1, sigma, i as u8))).collect();
    let e: Vec<Poly> = (0..p.k).map(|i| ntt(&sample_cbd(p.eta1, sigma, (p.k + i) as u8))).collect();
    let mut ek = Vec::with_capacity(p.ek_len());
    let mut dk = Vec::with_capacity(p.dk_len());
    for i in 0..p.k {
        let mut t = e[i];
        for j in 0..p.k {
            t = add(&t, &mul_ntt(&a[i][j], &s[j]));
        }
        ek.extend(byte_encode(12, &t));
    }
    ek.extend_from_slice(rho);
    for f in &s {
        dk.extend(byte_encode(12, f));
    }
    dk.extend_from_slice(&ek);
    dk.extend_from_slice(&sha3_256(&[&ek]));
    dk.extend_from_slice(z);
    (ek, dk)
}

/// The encapsulation key an ek byte string denotes: each 12-bit field reduced mod q.
pub fn canonical_ek(p: Params, ek: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(ek.len());
    for c in ek[..384 * p.k].chunks(384) {
        o.extend(byte_encode(12, &byte_decode(12, c)));
    }
    o.extend_from_slice(&ek[384 * p.k..]);
    o
}

pub fn canonical_dk(p: Params, dk: &[u8]) -> Vec<u8> {
    let n = 384 * p.k;
    let mut o = Vec::with_capacity(dk.len());
    for c in dk[..n].chunks(384) {
        o.extend(byte_encode(12, &byte_decode(12, c)));
    }
    o.extend(canonical_ek(p, &dk[n..2 * n + 32]));
    o.extend_from_slice(&dk[2 * n + 32..]);
    o
}

/// ek must be canonical (or the caller means the value it denotes).
fn pke_encrypt(p: Params, ek: &[u8], m: &[u8], r: &[u8]) -> Vec<u8> {
    let t: Vec<Poly> = ek[..384 * p.k].chunks(384).map(|c| byte_decode(12, c)).collect();
    let a = matrix(p, &ek[384 * p.k..]);
    let y: Vec<Poly> = (0..p.k).map(|i| ntt(&sample_cbd(p.eta1, r, i as u8))).collect();
    let mut out = Vec::with_capacity(p.ct_len());
    for i in 0..p.k {
        let mut u = [0u32; 256];
        for j in 0..p.k {
            u = add(&u, &mul_ntt(&a[j][i], &y[j]));
        }
        let u = add(&intt(&u), &sample_cbd(p.eta2, r, (p.k + i) as u8));
        out.extend(byte_encode(p.du, &compress_poly(p.du, &u)));
    }
    let mut v = [0u32; 256];
    for j in 0..p.k {
        v = add(&v, &mul_ntt(&t[j], &y[j]));
    }
    let mu = decompress_poly(1, &byte_decode(1, m));
    let v = add(&add(&intt(&v), &sample_cbd(p.eta2, r, 2 * p.k as u8)), &mu);
    out.extend(byte_encode(p.dv, &compress_poly(p.dv, &v)));
    out
}

fn pke_decrypt(p: Params, s_hat: &[u8], ct: &[u8]) -> Vec<u8> {
    let n = 32 * p.du;
    let mut w = [0u32; 256];
    for i in 0..p.k {
        let u = decompress_poly(p.du, &byte_decode(p.du, &ct[n * i..n * (i + 1)]));
        w = add(&w, &mul_ntt(&byte_decode(12, &s_hat[384 * i..384 * (i + 1)]), &ntt(&u)));
    }
    let v = decompress_poly(p.dv, &byte_decode(p.dv, &ct[n * p.k..]));
    let w = sub(&v, &intt(&w));
    byte_encode(1, &compress_poly(1, &w))
}

/// (ct, ss) of ML-KEM.Encaps_internal on the value `ek` denotes.
pub fn encaps(p: Params, ek: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let ek = canonical_ek(p, ek);
    let h = sha3_256(&[&ek]);
    encaps_with_hash(p, &ek, &h, m)
}

/// ...to a key whose hash is taken from elsewhere (a stored decapsulation key carries its own).
pub fn encaps_with_hash(p: Params, ek: &[u8], h: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let g = sha3_512(&[m, h]);
    let ct = pke_encrypt(p, ek, m, &g[32..]);
    (ct, g[..32].to_vec())
}

/// The implicit-rejection secret of the holder of `dk` for `ct`.
pub fn rejection(dk: &[u8], ct: &[u8]) -> Vec<u8> {
    shake256_32(&[&dk[dk.len() - 32..], ct]).to_vec()
}

/// (ss, accepted) of ML-KEM.Decaps_internal.
pub fn decaps(p: Params, dk: &[u8], ct: &[u8]) -> (Vec<u8>, bool) {
    let n = 384 * p.k;
    let (s_hat, ek, h) = (&dk[..n], &dk[n..2 * n + 32], &dk[2 * n + 32..2 * n + 64]);
    let m = pke_decrypt(p, s_hat, ct);
    let g = sha3_512(&[&m, h]);
    if pke_encrypt(p, ek, &m, &g[32..]) == ct {
        (g[..32].to_vec(), true)
    } else {
        (rejection(dk, ct), false)
    }
}

// ---------------------------------------------------------------------------------------------
// X-Wing (draft-connolly-cfrg-xwing-kem-04)

pub const XW_EK: usize = 1216;
pub const XW_CT: usize = 1120;

pub struct XwExpanded {
    pub d: Vec<u8>,
    pub z: Vec<u8>,
    pub dk_m: Vec<u8>,
    pub ek_m: Vec<u8>,
    pub sk_x: [u8; 32],
    pub pk_x: [u8; 32],
}

pub fn x25519(k: &[u8], u: &[u8]) -> [u8; 32] {
    x25519_dalek::x25519(k.try_into().unwrap(), u.try_into().unwrap())
}
pub fn x25519_base(k: &[u8]) -> [u8; 32] {
    x25519_dalek::x25519(k.try_into().unwrap(), x25519_dalek::X25519_BASEPOINT_BYTES)
}

pub fn xw_expand(sk: &[u8]) -> XwExpanded {
    let mut e = [0u8; 96];
    Sponge::shake128().absorb(sk).squeeze(&mut e);
    let (ek_m, dk_m) = keygen(P768, &e[..32], &e[32..64]);
    let sk_x: [u8; 32] = e[64..].try_into().unwrap();
    XwExpanded { d: e[..32].to_vec(), z: e[32..64].to_vec(), dk_m, ek_m, sk_x, pk_x: x25519_base(&sk_x) }
}

pub fn xw_public(sk: &[u8]) -> Vec<u8> {
    let e = xw_expand(sk);
    let mut v = e.ek_m;
    v.extend_from_slice(&e.pk_x);
    v
}

pub fn xw_canonical_ek(ek: &[u8]) -> Vec<u8> {
    let mut v = canonical_ek(P768, &ek[..1184]);
    v.extend_from_slice(&ek[1184..]);
    v
}

fn xw_combine(ss_m: &[u8], ss_x: &[u8], ct_x: &[u8], pk_x: &[u8]) -> Vec<u8> {
    sha3_256(&[&[0x5c, 0x2e, 0x2f, 0x2f, 0x5e, 0x5c], ss_m, ss_x, ct_x, pk_x]).to_vec()
}

/// eseed = m || ek_x
pub fn xw_encaps(ek: &[u8], eseed: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (mut ct, ss_m) = encaps(P768, &ek[..1184], &eseed[..32]);
    let pk_x = &ek[1184..];
    let ct_x = x25519_base(&eseed[32..64]);
    let ss_x = x25519(&eseed[32..64], pk_x);
    ct.extend_from_slice(&ct_x);
    (ct, xw_combine(&ss_m, &ss_x, &ct_x, pk_x))
}

pub fn xw_decaps(sk: &[u8], ct: &[u8]) -> Vec<u8> {
    let e = xw_expand(sk);
    let (ss_m, _) = decaps(P768, &e.dk_m, &ct[..1088]);
    let ss_x = x25519(&e.sk_x, &ct[1088..]);
    xw_combine(&ss_m, &ss_x, &ct[1088..], &e.pk_x)
}

// ---------------------------------------------------------------------------------------------
// raw Diffie-Hellman

/// Feeds recorded bytes; remembers how many were used and whether it ran out.
pub struct Replay<'a> {
    pub bytes: &'a [u8],
    pub used: usize,
    pub dry: bool,
}
impl rand_core::RngCore for Replay<'_> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if self.used + dest.len() > self.bytes.len() {
            self.dry = true;
            // anything that ends a rejection loop
            dest.fill(0);
            let n = dest.len();
            dest[n - 1] = 1;
            return;
        }
        dest.copy_from_slice(&self.bytes[self.used..self.used + dest.len()]);
        self.used += dest.len();
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand_core::CryptoRng for Replay<'_> {}

/// scheme: 4 X25519, 5 P-256, 6 P-384, 7 P-521, 8 secp256k1.
/// Private scalar drawn from `entropy`, its public key (uncompressed), bytes used; None if the
/// recorded entropy does not suffice.
pub fn dh_keygen(scheme: u32, entropy: &[u8]) -> Option<(Vec<u8>, Vec<u8>, usize)> {
    macro_rules! ec {
        ($c:ty) => {{
            use elliptic_curve::sec1::ToEncodedPoint;
            let mut r = Replay { bytes: entropy, used: 0, dry: false };
            let s = elliptic_curve::NonZeroScalar::<$c>::random(&mut r);
            if r.dry {
                return None;
            }
            let pk = elliptic_curve::PublicKey::<$c>::from_secret_scalar(&s);
            let sk: elliptic_curve::FieldBytes<$c> = s.into();
            Some((sk.to_vec(), pk.to_encoded_point(false).as_bytes().to_vec(), r.used))
        }};
    }
    match scheme {
        4 => {
            if entropy.len() < 32 {
                return None;
            }
            Some((entropy[..32].to_vec(), x25519_base(&entropy[..32]).to_vec(), 32))
        }
        5 => ec!(p256::NistP256),
        6 => ec!(p384::NistP384),
        7 => ec!(p521::NistP521),
        8 => ec!(k256::Secp256k1),
        _ => unreachable!(),
    }
}

/// Raw shared secret; None if `pk` is not a public key of the group.
pub fn dh(scheme: u32, sk: &[u8], pk: &[u8]) -> Option<Vec<u8>> {
    macro_rules! ec {
        ($c:ty) => {{
            let pk = elliptic_curve::PublicKey::<$c>::from_sec1_bytes(pk).ok()?;
            let s: Option<elliptic_curve::NonZeroScalar<$c>> =
                elliptic_curve::NonZeroScalar::<$c>::try_from(sk).ok();
            Some(
                elliptic_curve::ecdh::diffie_hellman(s.expect("scalar"), pk.as_affine())
                    .raw_secret_bytes()
                    .to_vec(),
            )
        }};
    }
    match scheme {
        4 => (pk.len() == 32).then(|| x25519(sk, pk).to_vec()),
        5 => ec!(p256::NistP256),
        6 => ec!(p384::NistP384),
        7 => ec!(p521::NistP521),
        8 => ec!(k256::Secp256k1),
        _ => unreachable!(),
    }
}

/// A public key (uncompressed) whose Diffie-Hellman secret with `sk` is an extreme field element.
pub fn dh_aim(scheme: u32, sk: &[u8], seed: u64) -> Option<Vec<u8>> {
    let mut r = crate::rng::Rng::new(seed);
    let n = match scheme {
        6 => 48,
        7 => 66,
        _ => 32,
    };
    // as the secret will be written; the curves differ in byte order
    let want = |r: &mut crate::rng::Rng| {
        let mut x = r.bytes(n);
        let z = *r.pick(&[1usize, 2, 2, 4, 8, n - 2, n - 1]);
        match r.below(4) {
            0 => x[..z].fill(0),
            1 => x[n - z..].fill(0),
            2 => {
                let at = r.idx(n - z + 1);
                x[at..at + z].fill(0);
            }
            _ => {
                let v = r.u64() as u8;
                let at = r.idx(n - z + 1);
                x[at..at + z].fill(v);
            }
        }
        if scheme == 7 {
            x[0] &= 1;
        }
        x
    };
    macro_rules! ec {
        ($c:ty) => {{
            use elliptic_curve::sec1::ToEncodedPoint;
            let a: elliptic_curve::NonZeroScalar<$c> =
                Option::from(elliptic_curve::NonZeroScalar::<$c>::from_repr(elliptic_curve::FieldBytes::<$c>::clone_from_slice(sk)))?;
            let inv: elliptic_curve::Scalar<$c> = Option::from(elliptic_curve::Field::invert(&*a))?;
            for _ in 0..20 {
                let c = [&[2 + r.below(2) as u8][..], &want(&mut r)].concat();
                let Ok(t) = elliptic_curve::PublicKey::<$c>::from_sec1_bytes(&c) else { continue };
                let p = t.to_projective() * inv;
                let p = elliptic_curve::PublicKey::<$c>::from_affine(p.into()).ok()?;
                return Some(p.to_encoded_point(false).as_bytes().to_vec());
            }
            None
        }};
    }
    match scheme {
        4 => {
            let mut c: [u8; 32] = sk.try_into().ok()?;
            c[0] &= 248;
            c[31] = c[31] & 127 | 64;
            let inv = curve25519_dalek::Scalar::from_bytes_mod_order(c).invert();
            for _ in 0..200 {
                let mut u: [u8; 32] = want(&mut r).try_into().unwrap();
                u[31] &= 127;
                let p = (curve25519_dalek::MontgomeryPoint(u) * inv).to_bytes();
                if x25519(sk, &p)[..] == u {
                    return Some(p.to_vec());
                }
            }
            None
        }
        5 => ec!(p256::NistP256),
        6 => ec!(p384::NistP384),
        7 => ec!(p521::NistP521),
        8 => ec!(k256::Secp256k1),
        _ => None,
    }
}

/// Re-encode a public key: compressed or not; None if invalid.
pub fn dh_reencode(scheme: u32, pk: &[u8], compress: bool) -> Option<Vec<u8>> {
    macro_rules! ec {
        ($c:ty) => {{
            use elliptic_curve::sec1::ToEncodedPoint;
            let pk = elliptic_curve::PublicKey::<$c>::from_sec1_bytes(pk).ok()?;
            Some(pk.to_encoded_point(compress).as_bytes().to_vec())
        }};
    }
    match scheme {
        4 => (pk.len() == 32).then(|| pk.to_vec()),
        5 => ec!(p256::NistP256),
        6 => ec!(p384::NistP384),
        7 => ec!(p521::NistP521),
        8 => ec!(k256::Secp256k1),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------------------------------------
// uniform view over schemes

pub const NAMES: [&str; 9] = [
    "ML-KEM-512", "ML-KEM-768", "ML-KEM-1024", "X-Wing", "DHKEM-X25519", "DHKEM-P256",
    "DHKEM-P384", "DHKEM-P521", "DHKEM-secp256k1",
];

pub fn is_mlkem(s: u32) -> bool {
    s < 3
}
pub fn is_dh(s: u32) -> bool {
    s >= 4
}
pub fn params(s: u32) -> Params {
    [P512, P768, P1024][s as usize]
}
pub fn ek_len(s: u32) -> usize {
    match s {
        0..=2 => params(s).ek_len(),
        3 => XW_EK,
        4 => 32,
        5 | 8 => 65,
        6 => 97,
        _ => 133,
    }
}
pub fn ct_len(s: u32) -> usize {
    match s {
        0..=2 => params(s).ct_len(),
        3 => XW_CT,
        _ => ek_len(s),
    }
}
pub fn dk_len(s: u32) -> usize {
    match s {
        0..=2 => params(s).dk_len(),
        3 => 32,
        4 | 5 | 8 => 32,
        6 => 48,
        _ => 66,
    }
}

/// Key pair (dk, ek, bytes consumed) the standard derives from these random bytes.
pub fn std_keygen(s: u32, ent: &[u8]) -> Option<(Vec<u8>, Vec<u8>, usize)> {
    match s {
        0..=2 => {
            let (d, z) = (ent.get(..32)?, ent.get(32..64)?);
            let (ek, dk) = keygen(params(s), d, z);
            Some((dk, ek, 64))
        }
        3 => {
            let sk = ent.get(..32)?;
            Some((sk.to_vec(), xw_public(sk), 32))
        }
        _ => dh_keygen(s, ent),
    }
}

/// (ct, ss, consumed); None: not enough entropy or invalid key.
pub fn std_encap(s: u32, ek: &[u8], ent: &[u8]) -> Option<(Vec<u8>, Vec<u8>, usize)> {
    match s {
        0..=2 => {
            let (c, k) = encaps(params(s), ek, ent.get(..32)?);
            Some((c, k, 32))
        }
        3 => {
            let (c, k) = xw_encaps(ek, ent.get(..64)?);
            Some((c, k, 64))
        }
        _ => {
            let (sk, pk, n) = dh_keygen(s, ent)?;
            Some((pk, dh(s, &sk, ek)?, n))
        }
    }
}

/// None: ciphertext not well-formed.
pub fn std_decap(s: u32, dk: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    match s {
        0..=2 => (ct.len() == ct_len(s)).then(|| decaps(params(s), dk, ct).0),
        3 => (ct.len() == XW_CT).then(|| xw_decaps(dk, ct)),
        _ => dh(s, dk, ct),
    }
}

pub fn canonical_public(s: u32, ek: &[u8]) -> Option<Vec<u8>> {
    match s {
        0..=2 => (ek.len() == ek_len(s)).then(|| canonical_ek(params(s), ek)),
        3 => (ek.len() == XW_EK).then(|| xw_canonical_ek(ek)),
        _ => dh_reencode(s, ek, false),
    }
}

/// The value an X25519 public key denotes (RFC 7748: top bit ignored, reduced modulo 2^255 - 19).
fn x25519_value(b: &[u8]) -> [u8; 32] {
    let mut v: [u8; 32] = b.try_into().unwrap();
    v[31] &= 0x7f;
    if v[31] == 0x7f && v[1..31].iter().all(|&x| x == 0xff) && v[0] >= 0xed {
        let low = v[0] - 0xed;
        v = [0; 32];
        v[0] = low;
    }
    v
}

/// Must public keys with these (canonical) encodings compare equal?  None: the bytes differ but the
/// X25519 value they denote is the same, and whether such keys are equal is nobody's promise.
pub fn public_equal(s: u32, a: &[u8], b: &[u8]) -> Option<bool> {
    if a == b {
        return Some(true);
    }
    let at = match s {
        3 => 1184,
        4 => 0,
        _ => return Some(false),
    };
    if a.len() != at + 32 || b.len() != at + 32 || a[..at] != b[..at] {
        return Some(false);
    }
    if x25519_value(&a[at..]) == x25519_value(&b[at..]) { None } else { Some(false) }
}
