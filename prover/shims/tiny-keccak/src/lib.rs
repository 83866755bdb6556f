//! Stand-in for `tiny-keccak` (not in the offline cache): Keccak-256/512 and SHA3-256, straight from FIPS 202.
pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}
#[derive(Clone)]
struct Sponge {
    buf: Vec<u8>,
    rate: usize,
    pad: u8,
}
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
    0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
    0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
fn f1600(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let (mut x, mut y, mut cur) = (1usize, 0usize, a[1]);
        for t in 0..24u32 {
            (x, y) = (y, (2 * x + 3 * y) % 5);
            let next = a[x + 5 * y];
            a[x + 5 * y] = cur.rotate_left((t + 1) * (t + 2) / 2 % 64);
            cur = next;
        }
        for y in 0..5 {
            let row: [u64; 5] = a[5 * y..5 * y + 5].try_into().unwrap();
            for x in 0..5 {
                a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}
impl Sponge {
    fn new(bits: usize, pad: u8) -> Self {
        Self { buf: vec![], rate: 200 - bits / 4, pad }
    }
    fn done(mut self, out: &mut [u8]) {
        let r = self.rate;
        let n = r - self.buf.len() % r;
        let at = self.buf.len();
        self.buf.resize(at + n, 0);
        self.buf[at] ^= self.pad;
        *self.buf.last_mut().unwrap() ^= 0x80;
        let mut a = [0u64; 25];
        for blk in self.buf.chunks(r) {
            for (k, w) in blk.chunks(8).enumerate() {
                a[k] ^= u64::from_le_bytes(w.try_into().unwrap());
            }
            f1600(&mut a);
        }
        let mut o = 0;
        while o < out.len() {
            let bytes: Vec<u8> = a.iter().flat_map(|w| w.to_le_bytes()).take(r).collect();
            let k = (out.len() - o).min(r);
            out[o..o + k].copy_from_slice(&bytes[..k]);
            o += k;
            if o < out.len() {
                f1600(&mut a);
            }
        }
    }
}
#[derive(Clone)]
pub struct Keccak(Sponge);
impl Keccak {
    pub fn v224() -> Self { Self(Sponge::new(224, 1)) }
    pub fn v256() -> Self { Self(Sponge::new(256, 1)) }
    pub fn v384() -> Self { Self(Sponge::new(384, 1)) }
    pub fn v512() -> Self { Self(Sponge::new(512, 1)) }
}
#[derive(Clone)]
pub struct Sha3(Sponge);
impl Sha3 {
    pub fn v256() -> Self { Self(Sponge::new(256, 6)) }
    pub fn v512() -> Self { Self(Sponge::new(512, 6)) }
}
impl Hasher for Keccak {
    fn update(&mut self, i: &[u8]) { self.0.buf.extend_from_slice(i) }
    fn finalize(self, o: &mut [u8]) { self.0.done(o) }
}
impl Hasher for Sha3 {
    fn update(&mut self, i: &[u8]) { self.0.buf.extend_from_slice(i) }
    fn finalize(self, o: &mut [u8]) { self.0.done(o) }
}
#[cfg(test)]
mod t {
    use super::*;
    fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
    #[test]
    fn vectors() {
        let mut o = [0; 32];
        Keccak::v256().finalize(&mut o);
        assert_eq!(hex(&o), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        let mut k = Keccak::v256();
        k.update(b"abc");
        k.finalize(&mut o);
        assert_eq!(hex(&o), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45");
        let mut k = Sha3::v256();
        k.update(b"abc");
        k.finalize(&mut o);
        assert_eq!(hex(&o), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532");
    }
}
