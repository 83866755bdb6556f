//! Artifact values used by the jstprove_io monitors, plus independent encoders.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Unit,
    New(i64),
    Tup(u8, String),
    Rec { a: Option<u32>, b: Vec<i16> },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Meta {
    pub name: String,
    pub n_bits: HashMap<String, usize>,
    #[serde(default)]
    pub opt: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub late: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Art {
    pub name: String,
    pub ints: Vec<i64>,
    pub big: u64,
    pub small: Vec<u8>,
    pub floats: Vec<f64>,
    pub f32s: Vec<f32>,
    pub map: BTreeMap<String, usize>,
    pub hmap: HashMap<u32, Vec<bool>>,
    pub nested: Vec<Vec<i64>>,
    pub kinds: Vec<Kind>,
    pub opt: Option<Box<Art>>,
    pub tup: (i8, u16, bool, char),
    #[serde(default)]
    pub unit: (),
    pub text: Vec<String>,
}

const INTS: &[i64] = &[
    0, 1, -1, 31, 32, 127, 128, -32, -33, -127, -128, -129, 255, 256, 32767, 32768, 65535, 65536,
    -32768, -32769, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296,
    i64::MAX, i64::MIN,
];

pub fn gen_i64(r: &mut Rng) -> i64 {
    match r.below(3) {
        0 => *r.pick(INTS),
        1 => r.range(-1000, 1000),
        _ => r.u64() as i64,
    }
}

pub fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.5, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, 1e300]),
        1 => r.sf64(),
        2 => r.sf64() * 1e6,
        _ => {
            let f = f64::from_bits(r.u64());
            if f.is_nan() {
                0.25
            } else {
                f
            }
        }
    }
}

pub fn gen_string(r: &mut Rng, max: usize) -> String {
    let n = match r.below(5) {
        0 => 0,
        1 => *r.pick(&[31usize, 32, 255, 256]),
        _ => r.below(max.max(1)),
    }
    .min(max);
    (0..n)
        .map(|_| match r.below(12) {
            0 => 'é',
            1 => '漢',
            2 => '😀',
            3 => '\0',
            _ => (b'a' + (r.below(26) as u8)) as char,
        })
        .collect()
}

fn len(r: &mut Rng, size: usize) -> usize {
    match r.below(6) {
        0 => 0,
        1 => *r.pick(&[1usize, 15, 16, 17, 255, 256]),
        _ => r.below(size.max(1)),
    }
    .min(size)
}

pub fn gen_meta(r: &mut Rng) -> Meta {
    let mut n_bits = HashMap::new();
    for _ in 0..r.below(20) {
        n_bits.insert(gen_string(r, 12), r.u64() as usize >> r.below(64));
    }
    Meta {
        name: gen_string(r, 40),
        n_bits,
        opt: if r.bool() { Some(r.u64()) } else { None },
        late: if r.bool() { Some(gen_string(r, 10)) } else { None },
    }
}

pub fn gen_art(r: &mut Rng, size: usize, depth: usize) -> Art {
    let kinds = (0..len(r, 8))
        .map(|_| match r.below(4) {
            0 => Kind::Unit,
            1 => Kind::New(gen_i64(r)),
            2 => Kind::Tup(r.u64() as u8, gen_string(r, 8)),
            _ => Kind::Rec {
                a: if r.bool() { Some(r.u64() as u32) } else { None },
                b: (0..r.below(5)).map(|_| r.u64() as i16).collect(),
            },
        })
        .collect();
    let compressible = r.bool();
    let nsmall = len(r, size);
    let small = if compressible {
        let a = r.u64() as u8;
        (0..nsmall).map(|i| a.wrapping_add((i / 97) as u8)).collect()
    } else {
        r.bytes(nsmall)
    };
    let nints = len(r, size);
    let ints = if compressible {
        let a = gen_i64(r);
        vec![a; nints]
    } else {
        (0..nints).map(|_| gen_i64(r)).collect()
    };
    let mut map = BTreeMap::new();
    for i in 0..len(r, 40) {
        map.insert(format!("layer_{i}{}", gen_string(r, 4)), r.u64() as usize >> r.below(64));
    }
    let mut hmap = HashMap::new();
    for _ in 0..len(r, 12) {
        hmap.insert(r.u64() as u32, (0..r.below(6)).map(|_| r.bool()).collect());
    }
    Art {
        name: gen_string(r, 300),
        ints,
        big: r.u64() >> r.below(64),
        small,
        floats: (0..len(r, size / 2 + 1)).map(|_| gen_f64(r)).collect(),
        f32s: (0..len(r, 20)).map(|_| (r.sf64() * 100.0) as f32).collect(),
        map,
        hmap,
        nested: (0..len(r, 10)).map(|_| (0..r.below(6)).map(|_| gen_i64(r)).collect()).collect(),
        kinds,
        opt: if depth > 0 && r.bool() { Some(Box::new(gen_art(r, size / 4 + 1, depth - 1))) } else { None },
        tup: (r.u64() as i8, r.u64() as u16, r.bool(), *r.pick(&['a', '\u{0}', 'é', '\u{10FFFF}'])),
        unit: (),
        text: (0..len(r, 8)).map(|_| gen_string(r, 40)).collect(),
    }
}

/// bit-by-bit CRC-32C (Castagnoli), independent of the crate the code uses
pub fn crc32c_ref(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { (c >> 1) ^ 0x82F6_3B78 } else { c >> 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = !0u32;
    for b in data {
        c = t[((c ^ u32::from(*b)) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

/// The released on-disk layout, written down independently of the code:
/// "JST\x01" | flags u32 LE (bit 0: zstd) | payload length u64 LE | crc32c(payload) u32 LE | payload
pub fn envelope_ref(payload: &[u8], zstd: bool) -> Vec<u8> {
    let mut v = b"JST\x01".to_vec();
    v.extend_from_slice(&(zstd as u32).to_le_bytes());
    v.extend_from_slice(&(payload.len() as u64).to_le_bytes());
    v.extend_from_slice(&crc32c_ref(payload).to_le_bytes());
    v.extend_from_slice(payload);
    v
}

/// zstd of `data` under varying encoder settings
pub fn zstd_ref(r: &mut Rng, data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let level = *r.pick(&[1, 3, 3, 9]);
    let mut e = zstd::stream::write::Encoder::new(Vec::new(), level).unwrap();
    if r.chance(1, 3) {
        e.include_checksum(true).unwrap();
    }
    if r.chance(1, 3) {
        e.set_pledged_src_size(Some(data.len() as u64)).unwrap();
        e.include_contentsize(true).unwrap();
    }
    let mut off = 0;
    while off < data.len() {
        let n = (1 + r.below(data.len() - off)).min(data.len() - off);
        e.write_all(&data[off..off + n]).unwrap();
        if r.chance(1, 4) {
            e.flush().unwrap();
        }
        off += n;
    }
    e.finish().unwrap()
}

pub fn hexs(b: &[u8]) -> String {
    let mut s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
    if b.len() > 400 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
