//! Operations the simulator drives itself: measuring the work a decapsulation does, and looking at
//! the memory a dropped key leaves behind.

use crate::api::*;
use crate::ffi::MAP;
use crate::kernel::{call_cost, cur, fresh_slice, hex, EntFault, EntSpec, Entropy};
use crate::model;
use crate::ops::use_entropy;
use crate::plan::{apply_muts, gentle, EraseHow};
use crate::rng::{mix, Rng};
use crate::world::Res;

const HOW: [&str; 16] = [
    "first byte altered",
    "last byte altered",
    "one bit altered",
    "replaced by random bytes",
    "low bits of coefficients altered",
    "first part zeroed",
    "second part zeroed",
    "all zero",
    "all ones",
    "one polynomial zeroed",
    "boundary values throughout",
    "first part of another genuine one",
    "second part of another genuine one",
    "tail replaced",
    "zeros over a stretch",
    "many bits altered",
];
pub const FORGERIES: u64 = HOW.len() as u64;

/// A forgery from a genuine ciphertext `t`; `o` is another genuine one for the same key.
fn forge(s: u32, how: u32, t: &mut Vec<u8>, o: &[u8], r: &mut Rng) {
    let l = t.len();
    let p = model::params(if s == 3 { 1 } else { s });
    let cut = 32 * p.k * p.du;
    let end = 32 * (p.k * p.du + p.dv);
    match how {
        0 => t[0] ^= 1 << r.below(8),
        1 => t[l - 1] ^= 1 << r.below(8),
        2 => {
            let b = r.idx(8 * l);
            t[b / 8] ^= 1 << (b % 8)
        }
        4 => apply_muts(t, &gentle(s, r), &|_| None),
        5 => t[..cut].fill(0),
        6 => t[cut..end].fill(0),
        7 => t.fill(0),
        8 => t.fill(0xff),
        9 => {
            let i = r.idx(p.k);
            t[32 * p.du * i..32 * p.du * (i + 1)].fill(0)
        }
        10 => {
            let c = crate::corpus::hostile_ct(if s == 3 { 1 } else { s }, r);
            t[..c.len()].copy_from_slice(&c);
            if s == 3 && r.chance(0.5) {
                let x = crate::corpus::hostile_ct(4, r);
                t[end..].copy_from_slice(&x);
            }
        }
        11 => t[..cut].copy_from_slice(&o[..cut]),
        12 => t[cut..end].copy_from_slice(&o[cut..end]),
        13 => {
            let n = r.idx(l);
            let b = r.bytes(l - n);
            t[n..].copy_from_slice(&b);
        }
        14 => {
            let a = r.idx(l);
            let b = a + 1 + r.idx(l - a);
            t[a..b].fill(0);
        }
        15 => {
            for _ in 0..2 + r.below(200) {
                let b = r.idx(8 * l);
                t[b / 8] ^= 1 << (b % 8);
            }
        }
        _ => t.copy_from_slice(&r.bytes(l)),
    }
}

// ---------------------------------------------------------------------------------------------
// C08

struct Class {
    cost: Vec<f64>,
    /// blocks visited by at least one / by all of the calls
    any: Vec<u8>,
    all: Vec<u8>,
}

fn moments(v: &[f64]) -> (f64, f64) {
    let n = v.len() as f64;
    let m = v.iter().sum::<f64>() / n;
    let s = v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (n - 1.0).max(1.0);
    (m, s)
}

fn sample(img: Img, s: u32, dk: usize, ek: usize, seed: u64, n: u32, how: u32) -> Result<(Class, Class), i32> {
    let g = (img.nguards() + 1).min(MAP);
    let mk = || Class { cost: vec![], any: vec![0; g], all: vec![1; g] };
    let (mut good, mut bad) = (mk(), mk());
    let cov = img.cov;
    // keep what the run covered so far
    let saved: Vec<u8> = unsafe { (&(*cov).map)[..g].to_vec() };
    let mut seen = saved;
    let mut prev = vec![];
    // in some samples every ciphertext has been tried before
    let warm = mix(seed, 0x3a) % 4 == 0;
    for i in 0..n {
        use_entropy(&EntSpec::stream(mix(seed, 0x100 + i as u64)));
        fresh_slice();
        let (st, ct, _) = encap(img, s, ek);
        if st != OK {
            return Err(st);
        }
        let mut r = Rng::new(mix(seed, 0x200 + i as u64));
        if prev.is_empty() {
            prev = ct.clone();
        }
        let mut t = ct.clone();
        forge(s, how, &mut t, &prev, &mut r);
        let mut turns = [(&mut good, &ct), (&mut bad, &t)];
        if r.chance(0.5) {
            turns.reverse();
        }
        for (c, b) in turns {
            if warm {
                for _ in 0..2 {
                    fresh_slice();
                    let (st, _) = decap(img, s, dk, b);
                    if st != OK {
                        return Err(st);
                    }
                }
            }
            unsafe { (&mut (*cov).map)[..g].fill(0) };
            fresh_slice();
            let (st, _) = decap(img, s, dk, b);
            if st != OK {
                return Err(st);
            }
            c.cost.push(call_cost() as f64);
            let m = unsafe { &(&(*cov).map)[..g] };
            for x in 0..g {
                c.any[x] |= m[x];
                c.all[x] &= m[x];
                seen[x] |= m[x];
            }
        }
        prev = ct;
    }
    unsafe { (&mut (*cov).map)[..g].copy_from_slice(&seen) };
    Ok((good, bad))
}

/// Forgeries whose contents are not distributed as those of genuine ciphertexts.
fn structured(how: u32) -> bool {
    matches!(how, 5..=10 | 14)
}

fn differs(a: &Class, b: &Class, structured: bool) -> Option<String> {
    let ((ma, va), (mb, vb)) = (moments(&a.cost), moments(&b.cost));
    let n = a.cost.len() as f64;
    if va == 0.0 && vb == 0.0 {
        if ma != mb {
            return Some(format!("always {ma} blocks for a genuine ciphertext, always {mb} for an altered one"));
        }
    } else if va == 0.0 {
        return Some(format!("always {ma} blocks for a genuine ciphertext, {mb:.1} on average (and varying) for altered ones"));
    } else if structured {
        // the count depends on the values computed with, genuine or not: these cannot be compared
        return None;
    } else {
        let t = (ma - mb) / ((va + vb) / n).sqrt();
        if t.abs() > 8.0 {
            return Some(format!("{ma:.1} blocks on average for a genuine ciphertext, {mb:.1} for an altered one (t = {t:.1})"));
        }
    }
    if structured {
        return None;
    }
    let only = |x: &Class, y: &Class| (0..x.all.len()).filter(|&i| x.all[i] == 1 && y.any[i] == 0).count();
    let (x, y) = (only(a, b), only(b, a));
    if x + y > 0 {
        return Some(format!("{x} code blocks run only for genuine ciphertexts, {y} only for altered ones"));
    }
    None
}

pub fn timing(img: Img, build: &str, s: u32, ent: &EntSpec, n: u32, how: u32) -> Res {
    let mut r = Res::new(OK);
    let n = n.clamp(8, 64);
    let how = how % FORGERIES as u32;
    // where the ciphertext lies may cost something; it must not differ between the two kinds
    crate::kernel::cur().place = 0;
    use_entropy(ent);
    fresh_slice();
    let (st, dk, ek) = keygen(img, s);
    if st != OK {
        r.st = st;
        return r;
    }
    match sample(img, s, dk, ek, ent.seed, n, how) {
        Err(st) => r.st = st,
        Ok((a, b)) => {
            r.counts.push(("check.C08".into(), n as u64));
            r.counts.push(("timed_decapsulations".into(), 2 * n as u64));
            r.out.parts = vec![(moments(&a.cost).0 as u64).to_le_bytes().to_vec(), (moments(&b.cost).0 as u64).to_le_bytes().to_vec()];
            if differs(&a, &b, structured(how)).is_some() {
                // only a difference that survives a larger, independent sample counts
                if let Ok((a, b)) = sample(img, s, dk, ek, mix(ent.seed, 0xc0ffee), 4 * n, how) {
                    if let Some(d) = differs(&a, &b, structured(how)) {
                        r.viol.push((
                            vec!["C08"],
                            "work-depends-on-authenticity".into(),
                            format!("timing/{build}/{}", model::NAMES[s as usize]),
                            format!("{} on build {build}, {}: {d}", model::NAMES[s as usize], HOW[how as usize]),
                        ));
                    }
                }
            }
        }
    }
    dk_free(img, s, dk);
    ek_free(img, s, ek);
    r
}

// ---------------------------------------------------------------------------------------------
// C09

/// Memory the simulator owns, into which objects are moved.
struct Place {
    b: *mut u8,
    p: *mut u8,
    n: usize,
    l: std::alloc::Layout,
}
impl Place {
    fn new(n: usize, align: usize) -> Place {
        let l = std::alloc::Layout::from_size_align(n + 64, align.max(64)).unwrap();
        let b = unsafe { std::alloc::alloc(l) };
        let p = unsafe { b.add(crate::kernel::place() % 64 / align * align) };
        unsafe { core::ptr::write_bytes(p, 0xa5, n) };
        Place { b, p, n, l }
    }
    fn bytes(&self) -> Vec<u8> {
        (0..self.n).map(|i| unsafe { core::ptr::read_volatile(self.p.add(i)) }).collect()
    }
}
impl Drop for Place {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.b, self.l) }
    }
}

fn how_name(h: &EraseHow) -> &'static str {
    match h {
        EraseHow::Plain => "plain",
        EraseHow::Clone => "clone",
        EraseHow::AfterUse => "after-use",
        EraseHow::Unwind(0) => "unwind-first-draw",
        EraseHow::Unwind(_) => "unwind-later-draw",
        EraseHow::Wipe => "wipe",
    }
}

/// Two secrets that share everything public, where that is possible.
struct Secret {
    /// how to make the object again
    dk: Option<Vec<u8>>,
    ent: EntSpec,
    /// byte strings that must not survive
    needles: Vec<Vec<u8>>,
}

fn packed_u16(coefs: &[u8]) -> Vec<u8> {
    // the in-memory form of a polynomial vector: one u16 per 12-bit field
    let mut v = vec![];
    for c in coefs.chunks_exact(3) {
        let a = c[0] as u16 | (c[1] as u16 & 0xf) << 8;
        let b = (c[1] >> 4) as u16 | (c[2] as u16) << 4;
        v.extend(a.to_le_bytes());
        v.extend(b.to_le_bytes());
    }
    v
}

fn secrets(img: Img, s: u32, ent: &EntSpec) -> Option<[Secret; 2]> {
    let other = EntSpec::stream(mix(ent.seed, 0x07e5));
    match s {
        0..=2 => {
            use_entropy(ent);
            let (st, dk, ek) = keygen(img, s);
            if st != OK {
                return None;
            }
            let (st, a) = dk_store(img, s, dk);
            dk_free(img, s, dk);
            ek_free(img, s, ek);
            if st != OK {
                return None;
            }
            let p = model::params(s);
            let n = 384 * p.k;
            let mut r = Rng::new(mix(ent.seed, 0xe7a5e));
            let mut b = a.clone();
            b[..n].copy_from_slice(&r.bytes(n));
            let l = b.len();
            let z = r.bytes(32);
            b[l - 32..].copy_from_slice(&z);
            let b = model::canonical_dk(p, &b);
            let mk = |v: Vec<u8>| {
                let needles = vec![v[..n].to_vec(), packed_u16(&v[..n]), v[l - 32..].to_vec()];
                Secret { dk: Some(v), ent: ent.clone(), needles }
            };
            Some([mk(a), mk(b)])
        }
        3 => {
            let mk = |e: &EntSpec| {
                let sk = e.bytes(32);
                let x = model::xw_expand(&sk);
                let sh = x.dk_m[..1152].to_vec();
                let u = packed_u16(&sh);
                Secret { dk: Some(sk.clone()), ent: e.clone(), needles: vec![sk, x.d, x.z, x.sk_x.to_vec(), sh, u] }
            };
            Some([mk(ent), mk(&other)])
        }
        _ => {
            let mk = |e: &EntSpec| {
                let sk = model::dh_keygen(s, &e.bytes(66 * 1500)).map(|x| x.0)?;
                let mut rev = sk.clone();
                rev.reverse();
                Some(Secret { dk: None, ent: e.clone(), needles: vec![sk, rev] })
            };
            Some([mk(ent)?, mk(&other)?])
        }
    }
}

/// Bring the object into `place`.
fn make(img: Img, s: u32, sec: &Secret, clone: bool, place: &Place) -> Result<usize, i32> {
    let (dk, ek) = match &sec.dk {
        Some(b) => {
            let (st, d) = dk_load(img, s, b);
            if st != OK {
                return Err(st);
            }
            let (st, e) = dk_ek(img, s, d);
            if st != OK {
                return Err(st);
            }
            (d, e)
        }
        None => {
            use_entropy(&sec.ent);
            let (st, d, e) = keygen(img, s);
            if st != OK {
                return Err(st);
            }
            (d, e)
        }
    };
    let dk = if clone {
        let (st, c) = dk_clone(img, s, dk);
        dk_free(img, s, dk);
        if st != OK {
            ek_free(img, s, ek);
            return Err(st);
        }
        c
    } else {
        dk
    };
    let st = dk_place(img, s, dk, place.p);
    if st != OK {
        return Err(st);
    }
    Ok(ek)
}

/// Images of the memory an object occupied, before and after, and of the heap memory it gave back.
type Life = (Vec<u8>, Vec<u8>, Vec<u8>);

fn life(img: Img, s: u32, sec: &Secret, how: &EraseHow, size: usize, align: usize) -> Result<Life, i32> {
    let place = Place::new(size, align);
    let ek = make(img, s, sec, *how == EraseHow::Clone, &place)?;
    let before = place.bytes();
    let st = match how {
        EraseHow::Plain | EraseHow::Clone => dk_drop_in_place(img, s, place.p),
        EraseHow::AfterUse => {
            use_entropy(&EntSpec::stream(mix(sec.ent.seed, 3)));
            let (st, ct, _) = encap(img, s, ek);
            if st == OK {
                let _ = decap(img, s, place.p as usize, &ct);
                let _ = decap(img, s, place.p as usize, &ct);
            }
            dk_drop_in_place(img, s, place.p)
        }
        EraseHow::Unwind(i) => {
            cur().ent = Entropy::new(
                EntSpec::stream(mix(sec.ent.seed, 5)),
                EntFault { fail: Some((*i, 500)), ..Default::default() },
            );
            let st = dk_scoped(img, s, place.p, ek);
            if st == ENTROPY {
                OK
            } else {
                st
            }
        }
        EraseHow::Wipe => {
            let st = dk_wipe(img, s, place.p as usize);
            if st == OK {
                let (after, heap) = (place.bytes(), kept(img));
                let _ = dk_drop_in_place(img, s, place.p);
                ek_free(img, s, ek);
                return Ok((before, after, heap));
            }
            dk_drop_in_place(img, s, place.p);
            st
        }
    };
    let (after, heap) = (place.bytes(), kept(img));
    ek_free(img, s, ek);
    if st != OK {
        return Err(st);
    }
    Ok((before, after, heap))
}

/// Offsets that still hold what depends on the key; `v`: lives of key 0, key 1 and key 0 again.
fn left_of(v: &[Life]) -> Vec<usize> {
    (0..v[0].0.len())
        .filter(|&i| {
            v[0].0[i] == v[2].0[i]
                && v[0].1[i] == v[2].1[i]
                && v[0].1[i] != v[1].1[i]
                && v[0].1[i] == v[0].0[i]
                && v[1].1[i] == v[1].0[i]
        })
        .collect()
}

/// 8-byte windows of a needle that are still there
fn survivors(mem: &[u8], needles: &[Vec<u8>]) -> usize {
    let mut want = std::collections::HashMap::<u64, usize>::new();
    let mut maybe = vec![false; 1 << 16];
    for w in needles.iter().flat_map(|v| v.windows(8)) {
        // patterned keys: a window of few distinct values proves nothing
        let mut d = w.to_vec();
        d.sort_unstable();
        d.dedup();
        if d.len() >= 4 {
            let w = u64::from_le_bytes(w.try_into().unwrap());
            *want.entry(w).or_default() += 1;
            maybe[w as usize & 0xffff] = true;
        }
    }
    let mut n = 0;
    for m in mem.windows(8) {
        let m = u64::from_le_bytes(m.try_into().unwrap());
        if maybe[m as usize & 0xffff] {
            n += want.remove(&m).unwrap_or(0);
        }
    }
    n
}

pub fn erase(img: Img, build: &str, s: u32, how: &EraseHow, ent: &EntSpec, ct: bool) -> Res {
    let mut r = Res::new(OK);
    let name = model::NAMES[s as usize];
    if ct {
        return erase_ct(img, build, s, ent);
    }
    let site = format!("erase/{build}/{name}/{}", how_name(how));
    let Some(sec) = secrets(img, s, ent) else { return r };
    let (size, align) = dk_layout(img, s);
    if size == 0 || size > 1 << 16 {
        return r;
    }
    // key 0, key 1, key 0 again: what the two lives of key 0 do not share is not about the key
    let mut v = vec![];
    for i in [0, 1, 0] {
        match life(img, s, &sec[i], how, size, align) {
            Ok(x) => v.push(x),
            Err(st) => {
                r.st = st;
                r.counts.push(("erase_inapplicable".into(), 1));
                return r;
            }
        }
    }
    let live: Vec<usize> = (0..size).filter(|&i| v[0].0[i] != v[1].0[i] && v[0].0[i] == v[2].0[i]).collect();
    // everything in the object that differs between the two keys is secret when the public half is
    // shared (ML-KEM) or when the object is nothing but the secret
    let all_secret = match s {
        0..=2 => true,
        3 => size == 32,
        7 => size <= 72,
        _ => size == model::dk_len(s),
    };
    let mut found = None;
    // (a key may own heap memory)
    let heap = [&v[0].2, &v[1].2, &v[2].2];
    if !heap[0].is_empty() {
        r.counts.push(("erase_heap_bytes".into(), heap[0].len() as u64));
    }
    if all_secret {
        if live.len() < 8 && heap[0].is_empty() {
            r.counts.push(("erase_vacuous".into(), 1));
            return r;
        }
        r.counts.push(("check.C09".into(), 1));
        r.counts.push(("erased_bytes_examined".into(), live.len() as u64));
        let mut left = left_of(&v);
        if (1..4).contains(&left.len()) {
            // so little could be a coincidence in bytes no field owns: the same place, with other keys?
            let mut again = vec![];
            for j in 1..4 {
                let e = EntSpec::stream(mix(ent.seed, 0x6167 + j));
                let Some(sec) = secrets(img, s, &e) else { continue };
                let w: Vec<_> = [0, 1, 0].iter().filter_map(|&i| life(img, s, &sec[i], how, size, align).ok()).collect();
                if w.len() == 3 {
                    again.extend(left_of(&w));
                }
            }
            left.retain(|i| again.contains(i));
        }
        if !left.is_empty() {
            let b: Vec<u8> = left.iter().take(16).map(|&i| v[0].1[i]).collect();
            found = Some(format!(
                "{} of the {} bytes of the object that depend on the secret are still there, from offset {}: {}",
                left.len(),
                live.len(),
                left[0],
                hex(&b)
            ));
        }
    } else {
        let pre = survivors(&v[0].0, &sec[0].needles);
        if pre == 0 && heap[0].is_empty() {
            r.counts.push(("erase_vacuous".into(), 1));
            return r;
        }
        r.counts.push(("check.C09".into(), 1));
    }
    if found.is_none() {
        let n = survivors(&v[0].1, &sec[0].needles);
        if n > 0 {
            found = Some(format!("{n} eight-byte pieces of the secret are still in the object's memory"));
        }
    }
    if found.is_none() && !heap[0].is_empty() {
        // (sixteen bytes in a row, or as good as)
        let mut n = survivors(heap[0], &sec[0].needles);
        n = if n < 9 { 0 } else { n };
        if n == 0 && all_secret && heap.iter().all(|h| h.len() == heap[0].len()) {
            n = (0..heap[0].len()).filter(|&i| heap[0][i] == heap[2][i] && heap[0][i] != heap[1][i]).count();
            n = if n < 8 { 0 } else { n };
        }
        if n > 0 {
            found = Some(format!("{n} pieces of the secret were in the heap memory it gave back"));
        }
    }
    if found.is_none() {
        let n = survivors(&img.statics(), &sec[0].needles);
        if n >= 9 {
            found = Some(format!("{n} eight-byte pieces of the secret are in the library's static memory"));
        }
    }
    if let Some(d) = found {
        r.viol.push((
            vec!["C09"],
            "secret-survives-drop".into(),
            site,
            format!("{name} decapsulation key on build {build}, {}: {d}", how_name(how)),
        ));
    }
    r
}

fn erase_ct(img: Img, build: &str, s: u32, ent: &EntSpec) -> Res {
    let mut r = Res::new(OK);
    let mut v = vec![];
    for i in [0u64, 1, 0] {
        let ct = Rng::new(mix(ent.seed, 0xc7 + i)).bytes(model::ct_len(s));
        let place = Place::new(8192, 64);
        let (st, n) = ct_place(img, s, &ct, place.p);
        if st != OK || n == 0 || n > 8192 {
            return r;
        }
        let before = place.bytes();
        let st = ct_drop_in_place(img, s, place.p);
        if st != OK {
            r.st = st;
            return r;
        }
        v.push((before[..n].to_vec(), place.bytes()[..n].to_vec()));
    }
    let n = v[0].0.len();
    let live = (0..n).filter(|&i| v[0].0[i] != v[1].0[i]).count();
    if live < 8 {
        r.counts.push(("erase_vacuous".into(), 1));
        return r;
    }
    r.counts.push(("check.C09".into(), 1));
    let left = (0..n)
        .filter(|&i| {
            v[0].1[i] == v[2].1[i] && v[0].1[i] != v[1].1[i] && v[0].1[i] == v[0].0[i] && v[1].1[i] == v[1].0[i]
        })
        .count();
    if left >= 4 {
        r.viol.push((
            vec!["C09"],
            "ciphertext-survives-drop".into(),
            format!("erase/{build}/{}/ciphertext", model::NAMES[s as usize]),
            format!("{left} of {live} bytes of a dropped ciphertext object are still there"),
        ));
    }
    r
}

// ---------------------------------------------------------------------------------------------
// Long histories of one process

pub const MARATHONS: [&str; 8] = [
    "decapsulations with one key",
    "encapsulations to one key",
    "keys made and dropped",
    "clones of clones",
    "restorations of one key",
    "conversations",
    "keys held at once",
    "failures of the source",
];

/// The same few operations `n` times over, every result compared with the model's.
fn long(img: Img, s: u32, how: u32, n: u32, ent: &EntSpec) -> Result<u64, (String, Vec<&'static str>)> {
    let (agree, tamper, keep) = (crate::world::agree(s), crate::world::tamper(s), crate::world::durable(s));
    let e1 = EntSpec::stream(mix(ent.seed, 0x6d61));
    let wrong = |what: &str, i: u32, st: i32, tags: &[&'static str]| {
        let how = if st == OK { "differs from the prescribed value".into() } else { format!("{} unexpectedly", status_name(st)) };
        let mut t = vec!["C07"];
        t.extend(tags);
        (format!("{what}: number {} of {n} in this process {how}", i + 1), t)
    };
    let need = |e: &EntSpec| e.bytes(if s == 7 { 66 * 1500 } else { 2048 });
    let Some((mdk, mek, _)) = model::std_keygen(s, &need(ent)) else { return Ok(0) };
    let Some((mct, mss, _)) = model::std_encap(s, &mek, &need(&e1)) else { return Ok(0) };
    let mut bad = mct.clone();
    if model::is_dh(s) {
        let Some((_, p, _)) = model::dh_keygen(s, &need(&EntSpec::stream(mix(ent.seed, 0x6261)))) else { return Ok(0) };
        bad = p;
    } else {
        let l = bad.len();
        bad[mix(ent.seed, 0x6264) as usize % l] ^= 1;
    }
    let Some(mbad) = model::std_decap(s, &mdk, &bad) else { return Ok(0) };

    use_entropy(ent);
    let (st, mut dk, mut ek) = keygen(img, s);
    if st != OK {
        return Err(wrong("key generation", 0, st, &[agree]));
    }
    // sometimes the key comes from storage that changed its stored hash or rejection value: it is the
    // key those bytes denote, however often it is used, copied and restored
    let mut odk = mdk.clone();
    if s < 3 && mix(ent.seed, 0x6f64) % 3 == 0 {
        let at = odk.len() - 64 + mix(ent.seed, 0x6f65) as usize % 64;
        odk[at] ^= 1 << (ent.seed % 8);
        let (st, d) = dk_load(img, s, &odk);
        if st != OK {
            return Err(wrong("restoring a key", 0, st, &["C04"]));
        }
        dk_free(img, s, dk);
        dk = d;
    }
    let odd = odk != mdk;
    let wants = [(mss.clone(), mbad), (model::std_decap(s, &odk, &mct).unwrap_or_default(), model::std_decap(s, &odk, &bad).unwrap_or_default())];
    let own = std::cell::Cell::new(true);
    let open = |dk: usize, i: u32, what: &str, tags: &[&'static str]| {
        let damaged = i % 5 == 3;
        let w = &wants[own.get() as usize];
        let (c, want) = if damaged { (&bad, &w.1) } else { (&mct, &w.0) };
        let (st, ss) = decap(img, s, dk, c);
        if st != OK || ss != *want {
            let mut t = tags.to_vec();
            t.push(if damaged { tamper } else { agree });
            if odd && own.get() {
                t = vec![keep, "C04"];
            }
            return Err(wrong(what, i, st, &t));
        }
        Ok(())
    };
    let seal = |ek: usize, i: u32, what: &str| {
        use_entropy(&e1);
        let (st, ct, ss) = encap(img, s, ek);
        if st != OK || ct != mct || ss != mss {
            return Err(wrong(what, i, st, &[agree, "C06"]));
        }
        Ok(())
    };
    seal(ek, 0, "first encapsulation")?;
    let mut calls = 2u64;
    let name = MARATHONS[how as usize % MARATHONS.len()];
    match how as usize % MARATHONS.len() {
        0 => {
            for i in 0..n {
                open(dk, i, name, &[])?;
            }
            calls += n as u64;
        }
        1 => {
            for i in 0..n {
                seal(ek, i, name)?;
            }
            calls += n as u64;
        }
        2 => {
            for i in 0..n {
                let e = EntSpec::stream(mix(ent.seed, 0x2000 + i as u64));
                use_entropy(&e);
                let (st, d, k) = keygen(img, s);
                if st != OK {
                    return Err(wrong(name, i, st, &[agree]));
                }
                if i % 16 == 15 || i + 1 == n {
                    use_entropy(&e1);
                    let (st, ct, ss) = encap(img, s, k);
                    let (st2, ss2) = decap(img, s, d, &ct);
                    if st != OK || st2 != OK || ss != ss2 {
                        return Err(wrong(name, i, st.max(st2), &[agree]));
                    }
                    calls += 2;
                }
                dk_free(img, s, d);
                ek_free(img, s, k);
            }
            calls += n as u64;
        }
        3 => {
            for i in 0..n {
                let (st, c) = dk_clone(img, s, dk);
                let (st2, k) = ek_clone(img, s, ek);
                if st == UNSUPPORTED || st2 == UNSUPPORTED {
                    break;
                }
                if st != OK || st2 != OK {
                    return Err(wrong(name, i, st.max(st2), &[keep]));
                }
                dk_free(img, s, dk);
                ek_free(img, s, ek);
                (dk, ek) = (c, k);
                if i % 16 == 15 {
                    if !model::is_dh(s) {
                        let (st, b) = dk_store(img, s, dk);
                        if st != OK || b != odk {
                            return Err(wrong(name, i, st, &[keep]));
                        }
                    }
                    open(dk, i / 16, name, &[keep])?;
                    seal(ek, i / 16, name)?;
                    calls += 2;
                }
            }
            calls += n as u64;
        }
        4 => {
            for i in 0..n {
                if model::is_dh(s) {
                    let st = rewrap(img, s, &mut dk, &mut ek);
                    if st != OK {
                        return Err(wrong(name, i, st, &[keep]));
                    }
                } else {
                    let (st, b) = dk_store(img, s, dk);
                    if st != OK || b != odk {
                        return Err(wrong(name, i, st, &[keep]));
                    }
                    let (st, d) = dk_load(img, s, &b);
                    if st != OK {
                        return Err(wrong(name, i, st, &[keep]));
                    }
                    dk_free(img, s, dk);
                    dk = d;
                }
                if i % 16 == 15 {
                    open(dk, i / 16, name, &[keep])?;
                    seal(ek, i / 16, name)?;
                    calls += 2;
                }
            }
            calls += 2 * n as u64;
        }
        5 => {
            for i in 0..n {
                let e = EntSpec::stream(mix(ent.seed, 0x3000 + i as u64));
                use_entropy(&e);
                let (st, ct, ss) = encap(img, s, ek);
                if st != OK {
                    return Err(wrong(name, i, st, &[agree]));
                }
                let (st, ss2) = decap(img, s, dk, &ct);
                if st != OK || (ss != ss2 && !odd) {
                    return Err(wrong(name, i, st, &[agree]));
                }
                if i + 1 == n {
                    let want = model::std_encap(s, &mek, &need(&e)).map(|x| (x.0, x.1));
                    if want != Some((ct, ss)) {
                        return Err(wrong(name, i, OK, &[]));
                    }
                }
            }
            calls += 2 * n as u64;
        }
        6 => {
            let mut held = vec![];
            for i in 0..(n / 3).max(2) {
                use_entropy(&EntSpec::stream(mix(ent.seed, 0x4000 + i as u64)));
                let (st, d, k) = keygen(img, s);
                use_entropy(&e1);
                let (st2, ct, ss) = if st == OK { encap(img, s, k) } else { (st, vec![], vec![]) };
                if st2 != OK {
                    return Err(wrong(name, i, st2, &[agree]));
                }
                held.push((d, k, ct, ss));
            }
            let mut r = Rng::new(ent.seed);
            for i in 0..n / 3 {
                let (d, _, ct, ss) = r.pick(&held);
                let (st, ss2) = decap(img, s, *d, ct);
                if st != OK || *ss != ss2 {
                    return Err(wrong(name, i, st, &[agree]));
                }
            }
            for (d, k, ..) in held {
                dk_free(img, s, d);
                ek_free(img, s, k);
            }
            calls += n as u64;
        }
        _ => {
            let mut r = Rng::new(ent.seed);
            for i in 0..n {
                let fault = EntFault { fail: Some((r.below(2) as u32, r.below(1001) as u32)), ..EntFault::default() };
                crate::kernel::cur().ent = Entropy::new(e1.clone(), fault);
                let st = if i % 2 == 0 {
                    encap(img, s, ek).0
                } else {
                    let (st, d, k) = keygen(img, s);
                    if st == OK {
                        dk_free(img, s, d);
                        ek_free(img, s, k);
                    }
                    st
                };
                if crate::kernel::cur().ent.log.failed && st == OK {
                    return Err(wrong(name, i, st, &["C05"]));
                }
                if i % 16 == 15 || i + 1 == n {
                    open(dk, i / 16, name, &["C05"])?;
                    seal(ek, i / 16, name)?;
                    calls += 2;
                }
            }
            calls += n as u64;
        }
    }
    // the first key is what it was, and so is everything that can be made from the same randomness
    for i in [0, 3] {
        open(dk, i, name, &[])?;
    }
    seal(ek, 0, name)?;
    use_entropy(ent);
    let (st, d, k) = keygen(img, s);
    if st != OK {
        return Err(wrong("key generation", 0, st, &[agree]));
    }
    let (st, b) = ek_bytes(img, s, k);
    if st != OK || b != mek {
        return Err(wrong("key generation afterwards", 0, st, &["C06"]));
    }
    own.set(false);
    for i in [0, 3] {
        open(d, i, name, &[])?;
    }
    for (d, k) in [(d, k), (dk, ek)] {
        dk_free(img, s, d);
        ek_free(img, s, k);
    }
    Ok(calls + 7)
}

pub fn marathon(img: Img, build: &str, s: u32, how: u32, n: u32, ent: &EntSpec) -> Res {
    let mut r = Res::new(OK);
    let live = || unsafe { (*img.cov).live };
    let before = live();
    let res = long(img, s, how, n, ent);
    // (a cache of bounded size fills up once; what grows with the calls does not stop)
    let mut left = live().saturating_sub(before);
    let much = |left: u64| left >= (n as u64 / 16).max(8);
    let mut more = res.is_ok() && n >= 100 && much(left);
    for _ in 0..2 {
        if more {
            let before = live();
            more = long(img, s, how, n, ent).is_ok() && much(live().saturating_sub(before));
            left = live().saturating_sub(before);
        }
    }
    if more {
        r.viol.push((
            vec!["C20"],
            "memory-left-behind".into(),
            format!("marathon/{build}/{}", model::NAMES[s as usize]),
            format!("{left} more pieces of memory are still held after another {n} times {} on build {build}", MARATHONS[how as usize % MARATHONS.len()]),
        ));
    }
    match res {
        Ok(c) => {
            for p in ["C07", "C20", crate::world::agree(s)] {
                r.counts.push((format!("check.{p}"), c));
            }
            r.counts.push(("marathon_calls".into(), c));
        }
        Err((d, tags)) => {
            r.st = OK;
            r.viol.push((
                tags,
                "long-history".into(),
                format!("marathon/{build}/{}", model::NAMES[s as usize]),
                format!("{} on build {build}: {d}", model::NAMES[s as usize]),
            ));
        }
    }
    r
}
