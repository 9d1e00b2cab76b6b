//! Keccak-f[1600] and the four SHA-3 functions the reference model needs, written from FIPS 202.

const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000,
    0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
    0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
    0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [u32; 24] = [
    1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44,
];
const PIL: [usize; 24] = [
    10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1,
];

fn f1600(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut t = a[1];
        for i in 0..24 {
            let j = PIL[i];
            let b = a[j];
            a[j] = t.rotate_left(ROT[i]);
            t = b;
        }
        for y in 0..5 {
            let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}

pub struct Sponge {
    st: [u64; 25],
    rate: usize,
    pos: usize,
    suffix: u8,
    squeezing: bool,
}

impl Sponge {
    fn new(rate: usize, suffix: u8) -> Self {
        Sponge { st: [0; 25], rate, pos: 0, suffix, squeezing: false }
    }
    pub fn shake128() -> Self {
        Self::new(168, 0x1f)
    }
    pub fn shake256() -> Self {
        Self::new(136, 0x1f)
    }
    fn xor(&mut self, i: usize, b: u8) {
        self.st[i / 8] ^= (b as u64) << (8 * (i % 8));
    }
    pub fn absorb(mut self, data: &[u8]) -> Self {
        for &b in data {
            self.xor(self.pos, b);
            self.pos += 1;
            if self.pos == self.rate {
                f1600(&mut self.st);
                self.pos = 0;
            }
        }
        self
    }
    pub fn squeeze(&mut self, out: &mut [u8]) {
        if !self.squeezing {
            self.xor(self.pos, self.suffix);
            self.xor(self.rate - 1, 0x80);
            f1600(&mut self.st);
            self.pos = 0;
            self.squeezing = true;
        }
        for o in out {
            if self.pos == self.rate {
                f1600(&mut self.st);
                self.pos = 0;
            }
            *o = (self.st[self.pos / 8] >> (8 * (self.pos % 8))) as u8;
            self.pos += 1;
        }
    }
}

fn fixed<const N: usize>(rate: usize, suffix: u8, parts: &[&[u8]]) -> [u8; N] {
    let mut s = Sponge::new(rate, suffix);
    for p in parts {
        s = s.absorb(p);
    }
    let mut o = [0u8; N];
    s.squeeze(&mut o);
    o
}

pub fn sha3_256(parts: &[&[u8]]) -> [u8; 32] {
    fixed(136, 0x06, parts)
}
pub fn sha3_512(parts: &[&[u8]]) -> [u8; 64] {
    fixed(72, 0x06, parts)
}
pub fn shake256_32(parts: &[&[u8]]) -> [u8; 32] {
    fixed(136, 0x1f, parts)
}
