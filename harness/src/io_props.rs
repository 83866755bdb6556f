//! Monitors for the artifact layer (jstprove_io).
use crate::art::*;
use crate::check;
use crate::report::{bad, guarded, Bad, Case, Family, Scratch, Spec, R};
use crate::rng::{hash_bytes, hash_str, Rng};
use jstprove_io::bundle::{self, BundleBlobs};
use jstprove_io::ArtifactVersion;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};

fn lib<T>(what: &str, f: impl FnOnce() -> anyhow::Result<T>) -> Result<Result<T, String>, Bad> {
    match guarded(f) {
        Ok(Ok(v)) => Ok(Ok(v)),
        Ok(Err(e)) => Ok(Err(format!("{e:#}"))),
        Err(p) => bad(format!("{what}-panic"), format!("{what} panicked: {p}")),
    }
}

/// Valid use of the API: an error or a panic is a violation.
fn must<T>(what: &str, f: impl FnOnce() -> anyhow::Result<T>) -> Result<T, Bad> {
    match lib(what, f)? {
        Ok(v) => Ok(v),
        Err(e) => bad(format!("{what}-error"), format!("{what} failed on valid input: {e}")),
    }
}

fn size_class(r: &mut Rng, c: &Case) -> usize {
    let big = if c.tier == crate::report::Tier::Thorough { 400_000 } else { 60_000 };
    match r.below(10) {
        0 => 1,
        1..=4 => 30,
        5..=7 => 600,
        8 => 5_000,
        _ => big,
    }
}

// ---------------------------------------------------------------- A01 round trip

fn roundtrip<T: Serialize + DeserializeOwned + PartialEq + Debug>(
    c: &mut Case,
    dir: &Scratch,
    v: &T,
    kind: &str,
) -> R {
    for compress in [false, true] {
        let tag = if compress { "z" } else { "p" };
        c.evals += 1;
        let bytes = must("serialize_to_bytes", || jstprove_io::serialize_to_bytes(v, compress))?;
        let back: T = must("deserialize_from_bytes", || jstprove_io::deserialize_from_bytes(&bytes))?;
        check!(&back == v, format!("bytes-roundtrip-{kind}"), "value changed through bytes ({tag}, {} bytes): wrote {:.300?} got {:.300?}", bytes.len(), v, back);
        let path = dir.join(&format!("a-{tag}.bin"));
        // a longer stale file under the same name must not show through
        if c.rng.chance(1, 3) {
            let mut junk = c.rng.bytes(bytes.len() + 777);
            junk[..4].copy_from_slice(b"\x93abc");
            std::fs::write(&path, junk).unwrap();
            c.ev("overwrote_longer_file");
        }
        let n = must("serialize_to_file", || jstprove_io::serialize_to_file(v, &path, compress))?;
        let on_disk = std::fs::read(&path).unwrap();
        check!(n == on_disk.len(), "reported-size", "serialize_to_file reported {n} bytes, file has {}", on_disk.len());
        let back: T = must("deserialize_from_file", || jstprove_io::deserialize_from_file(&path))?;
        check!(&back == v, format!("file-roundtrip-{kind}"), "value changed through file ({tag}, {n} bytes): wrote {:.300?} got {:.300?}", v, back);
        // the two read paths agree on the same stored bytes
        let back: T = must("deserialize_from_bytes(file contents)", || jstprove_io::deserialize_from_bytes(&on_disk))?;
        check!(&back == v, format!("cross-roundtrip-{kind}"), "file contents read from memory differ ({tag})");
        let p2 = dir.join(&format!("b-{tag}.bin"));
        std::fs::write(&p2, &bytes).unwrap();
        let back: T = must("deserialize_from_file(bytes)", || jstprove_io::deserialize_from_file(&p2))?;
        check!(&back == v, format!("cross-roundtrip-{kind}"), "bytes stored to a file read back differently ({tag})");
        c.seen(hash_bytes(&bytes));
        c.ev(if compress { "roundtrip_compressed" } else { "roundtrip_plain" });
        if bytes.len() > 131_072 {
            c.ev("artifact_over_128KiB");
        }
        if c.sample.is_none() {
            c.sample = Some(json!({"kind": kind, "compress": compress, "bytes": bytes.len(), "head": hexs(&bytes[..bytes.len().min(40)])}));
        }
    }
    Ok(())
}

fn a01_struct(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let sz = size_class(&mut r, c);
    let v = gen_art(&mut r, sz, 3);
    c.rng = r;
    let d = c.scratch();
    roundtrip(c, &d, &v, "struct")
}

fn a01_scalars(c: &mut Case) -> R {
    let d = c.scratch();
    let mut r = c.rng.clone();
    match c.idx % 12 {
        0 => roundtrip(c, &d, &gen_i64(&mut r), "i64"),
        1 => roundtrip(c, &d, &gen_string(&mut r, 70_000), "string"),
        2 => {
            let n = *r.pick(&[0usize, 1, 3, 4, 15, 16, 255, 256, 65535, 65536]);
            roundtrip(c, &d, &r.bytes(n), "vecu8")
        }
        3 => roundtrip(c, &d, &(r.bool(), r.u64(), gen_f64(&mut r)), "tuple"),
        4 => roundtrip(c, &d, &(if r.bool() { Some(r.u64()) } else { None }), "option"),
        5 => roundtrip(c, &d, &(), "unit"),
        6 => roundtrip(c, &d, &gen_f64(&mut r), "f64"),
        7 => {
            let m: BTreeMap<String, i64> = (0..r.below(70_000)).map(|i| (format!("{i}"), gen_i64(&mut r))).collect();
            roundtrip(c, &d, &m, "map")
        }
        8 => roundtrip(c, &d, &r.bool(), "bool"),
        9 => roundtrip(c, &d, &(r.u64() as u8), "u8"),
        10 => {
            let n = *r.pick(&[0usize, 1, 15, 16, 65535, 65536, 65537]);
            let v: Vec<Vec<i64>> = (0..n).map(|i| if i % 3 == 0 { vec![] } else { vec![i as i64] }).collect();
            roundtrip(c, &d, &v, "vecvec")
        }
        _ => roundtrip(c, &d, &gen_meta(&mut r), "meta"),
    }
}

/// Artifact whose encoding fills whole compression blocks and whose compressed size sits on
/// or next to a buffer boundary of the reader.
fn a01_boundary(c: &mut Case) -> R {
    let d = c.scratch();
    let mut r = c.rng.clone();
    let blocks = 1 + (c.idx as usize % 3);
    let exact = c.idx % 4 != 3;
    let target_len = blocks * 131_072 + if exact { 0 } else { r.below(9) };
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct B {
        body: String,
    }
    // {"body": str32}: 1 + 5 + 5 = 11 bytes of framing
    let n = target_len - 11;
    // aim: compressed size = first fill (8192-20) + k*131075 + {-3..=4}
    let want: i64 = 8172 + if blocks > 1 && r.bool() { 131_075 } else { 0 } + r.range(-3, 4);
    let letters = r.bytes(n);
    let mut raw = (want as usize).min(n);
    let mut best: Option<(i64, String)> = None;
    for _ in 0..60 {
        // `raw` incompressible 7-bit characters, then a constant tail
        let body: String = (0..n).map(|i| if i < raw { (letters[i] & 0x7f) as char } else { 'x' }).collect();
        let v = B { body };
        let mp = rmp_serde::to_vec_named(&v).unwrap();
        let z = zstd::encode_all(mp.as_slice(), 3).unwrap();
        let diff = z.len() as i64 - want;
        if best.as_ref().is_none_or(|b| diff.abs() < b.0) {
            best = Some((diff.abs(), v.body));
        }
        if diff == 0 {
            c.ev("hit_exact_boundary");
            break;
        }
        let step = if diff.abs() > 8 { diff * 8 / 7 } else { diff.signum() * (1 + r.below(3) as i64) };
        let nr = raw as i64 - step;
        raw = nr.clamp(0, n as i64) as usize;
    }
    let body = best.unwrap().1;
    c.ev("boundary_case");
    roundtrip(c, &d, &B { body }, "boundary")
}

/// Reader that returns short reads and spurious Interrupted errors.
struct Choppy<'a> {
    data: &'a [u8],
    r: Rng,
}
impl Read for Choppy<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.r.chance(1, 5) {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let n = (1 + self.r.below(7)).min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn a01_stream(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let v = gen_art(&mut r, 60, 2);
    let mp = rmp_serde::to_vec_named(&v).unwrap();
    let back: Art = must("read_msgpack_reader", || jstprove_io::read_msgpack_reader(Choppy { data: &mp, r: r.clone() }))?;
    check!(back == v, "reader-roundtrip", "read_msgpack_reader changed the value");
    // messages back to back on one stream: each call consumes exactly one message
    let w = gen_meta(&mut r);
    let mut two = mp.clone();
    two.extend_from_slice(&rmp_serde::to_vec_named(&w).unwrap());
    let mut cur: &[u8] = &two;
    let a: Art = must("read_msgpack_reader", || jstprove_io::read_msgpack_reader(&mut cur))?;
    let b: Meta = must("read_msgpack_reader", || jstprove_io::read_msgpack_reader(&mut cur))?;
    check!(a == v && b == w, "reader-sequence", "two messages on one stream were not read back in order");
    for cut in [0, 1, mp.len() / 2, mp.len() - 1] {
        let o: Result<Art, String> = lib("read_msgpack_reader", || jstprove_io::read_msgpack_reader(&mp[..cut]))?;
        check!(o.is_err(), "reader-truncated", "a truncated message ({cut} of {}) was accepted", mp.len());
    }
    c.seen(hash_bytes(&two));
    c.ev("stream_case");
    Ok(())
}

/// Pipe mode: one process writes a message to stdout, another reads it from stdin and echoes.
fn a01_pipe(c: &mut Case) -> R {
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(exe)
        .args(["--child", "pipe-echo"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("spawn");
    let mut r = c.rng.clone();
    let sz = *r.pick(&[5usize, 200, 20_000]);
    let v = gen_art(&mut r, sz, 2);
    let mp = rmp_serde::to_vec_named(&v).unwrap();
    let mut stdin = child.stdin.take().unwrap();
    let mp2 = mp.clone();
    let mut rr = r.clone();
    let w = std::thread::spawn(move || {
        let mut off = 0;
        while off < mp2.len() {
            let n = (1 + rr.below(9000)).min(mp2.len() - off);
            if stdin.write_all(&mp2[off..off + n]).is_err() {
                break;
            }
            let _ = stdin.flush();
            off += n;
        }
    });
    let out = child.wait_with_output().unwrap();
    w.join().unwrap();
    check!(out.status.success(), "pipe-failed", "stdin/stdout echo child failed: {}", String::from_utf8_lossy(&out.stderr));
    let back: Result<Art, _> = rmp_serde::from_slice(&out.stdout);
    match back {
        Ok(b) => check!(b == v, "pipe-roundtrip", "message changed between stdin and stdout"),
        Err(e) => return bad("pipe-undecodable", format!("stdout is not the one message: {e}")),
    }
    let mut cur: &[u8] = &out.stdout;
    let _: Art = rmp_serde::from_read(&mut cur).unwrap();
    check!(cur.is_empty(), "pipe-trailing", "{} stray bytes after the message on stdout", cur.len());
    c.seen(hash_bytes(&mp));
    c.ev("pipe_case");
    Ok(())
}

pub fn a01() -> Spec {
    Spec {
        id: "A01",
        level: "exploration",
        rule: "values generated over every serde shape (nested structs, maps, options, enums, extreme integers and floats, strings, byte vectors; 20 B to several MB, compressible and not, plus artifacts tuned so their compressed size sits on the reader's buffer boundaries) are written and read through every API pair and compared; a case counts when its stored bytes are distinct",
        assumptions: &["values whose serde round trip through MessagePack is itself exact (no NaN)", "the local filesystem stores what it acknowledged"],
        require: &[("roundtrip_plain", 200), ("roundtrip_compressed", 200), ("artifact_over_128KiB", 3), ("stream_case", 20), ("pipe_case", 4), ("boundary_case", 20), ("hit_exact_boundary", 3)],
        families: vec![
            Family { name: "struct", quick: 700, thorough: 20_000, f: a01_struct },
            Family { name: "scalars", quick: 240, thorough: 6_000, f: a01_scalars },
            Family { name: "boundary", quick: 72, thorough: 900, f: a01_boundary },
            Family { name: "stream", quick: 100, thorough: 3_000, f: a01_stream },
            Family { name: "pipe", quick: 24, thorough: 300, f: a01_pipe },
        ],
    }
}

// ---------------------------------------------------------------- A02 integrity

fn corrupt_outcome(c: &mut Case, d: &Scratch, v: &Art, m: &[u8], what: &str, must_fail: bool) -> R {
    c.evals += 1;
    let a: Result<Art, String> = lib("deserialize_from_bytes", || jstprove_io::deserialize_from_bytes(m))?;
    match a {
        Err(_) => c.ev("rejected_bytes"),
        Ok(x) => {
            check!(&x == v, "bytes-silent-corruption", "{what}: memory reader returned a different value");
            check!(!must_fail, "bytes-damage-accepted", "{what}: damaged payload accepted by the memory reader");
            c.ev("harmless_bytes");
        }
    }
    let p = d.join("m.bin");
    std::fs::write(&p, m).unwrap();
    let b: Result<Art, String> = lib("deserialize_from_file", || jstprove_io::deserialize_from_file(&p))?;
    match b {
        Err(_) => c.ev("rejected_file"),
        Ok(x) => {
            check!(&x == v, "file-silent-corruption", "{what}: file reader returned a different value");
            check!(!must_fail, "file-damage-accepted", "{what}: damaged payload accepted by the file reader");
            c.ev("harmless_file");
        }
    }
    c.seen(hash_bytes(m) ^ hash_str(what));
    Ok(())
}

fn a02_flip(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let sz = *r.pick(&[3usize, 20, 200, 3000, 60_000]);
    let v = gen_art(&mut r, sz, 2);
    let compress = r.bool();
    let bytes = must("serialize_to_bytes", || jstprove_io::serialize_to_bytes(&v, compress))?;
    let d = c.scratch();
    c.rng = r.clone();
    c.sample = Some(json!({"len": bytes.len(), "compressed": compress, "mutations": "bursts <=32 bits, byte overwrites, truncations, header fields, swaps"}));
    let n = bytes.len();
    let rounds = if n > 20_000 { 10 } else { 30 };
    for _ in 0..rounds {
        let mut m = bytes.clone();
        let mut must_fail = true;
        let what;
        match r.below(8) {
            0 | 1 => {
                // burst of up to 32 bits inside the payload
                let start = 20 * 8 + r.below((n - 20) * 8);
                let len = 1 + r.below(32);
                m[start / 8] ^= 1 << (start % 8);
                for k in 1..len {
                    if start + k < n * 8 && r.bool() {
                        m[(start + k) / 8] ^= 1 << ((start + k) % 8);
                    }
                }
                what = format!("burst at bit {start}");
            }
            2 => {
                let k = 20 + r.below(n - 20);
                m[k] = m[k].wrapping_add(1 + r.below(255) as u8);
                what = format!("byte {k} changed");
            }
            3 => {
                // several bytes anywhere in the payload
                for _ in 0..1 + r.below(6) {
                    let k = 20 + r.below(n - 20);
                    m[k] ^= 1 << r.below(8);
                }
                must_fail = m != bytes;
                what = "several payload bytes changed".to_string();
            }
            4 => {
                let cut = r.below(n);
                m.truncate(cut);
                what = format!("truncated to {cut} of {n}");
            }
            5 => {
                let k = 16 + r.below(4);
                m[k] ^= 1 << r.below(8);
                what = format!("checksum byte {k} changed");
            }
            6 => {
                // any header byte
                let k = r.below(16);
                m[k] ^= 1 << r.below(8);
                must_fail = false;
                what = format!("header byte {k} changed");
            }
            _ => {
                // two payload regions swapped
                if n < 60 {
                    continue;
                }
                let l = 1 + r.below(8);
                let a = 20 + r.below(n - 20 - l);
                let b = 20 + r.below(n - 20 - l);
                for i in 0..l {
                    m.swap(a + i, b + i);
                }
                must_fail = m != bytes;
                what = format!("payload bytes {a} and {b} swapped ({l})");
            }
        }
        corrupt_outcome(c, &d, &v, &m, &what, must_fail)?;
    }
    Ok(())
}

/// Every single truncation point and every single payload bit of a small artifact.
fn a02_exhaustive(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let v = loop {
        let v = gen_art(&mut r, 4, 0);
        if rmp_serde::to_vec_named(&v).unwrap().len() < 420 {
            break v;
        }
    };
    let d = c.scratch();
    for compress in [false, true] {
        let bytes = must("serialize_to_bytes", || jstprove_io::serialize_to_bytes(&v, compress))?;
        for cut in 0..bytes.len() {
            corrupt_outcome(c, &d, &v, &bytes[..cut], &format!("truncated to {cut}"), true)?;
            c.ev("truncation_points");
        }
        for k in 20..bytes.len() {
            let mut m = bytes.clone();
            m[k] ^= 1 << r.below(8);
            corrupt_outcome(c, &d, &v, &m, &format!("bit in byte {k}"), true)?;
            c.ev("payload_bytes_hit");
        }
        for k in 0..160 {
            let mut m = bytes.clone();
            m[k / 8] ^= 1 << (k % 8);
            corrupt_outcome(c, &d, &v, &m, &format!("header bit {k}"), k >= 128)?;
        }
    }
    Ok(())
}

/// Large compressed artifact damaged near its end: the last compressed bytes are covered too.
fn a02_tail(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let d = c.scratch();
    let mut v = gen_art(&mut r, 20, 0);
    v.small = vec![];
    let base = rmp_serde::to_vec_named(&v).unwrap().len();
    let n = 131_072 * (1 + r.below(3)) + r.below(3) * 7 - base % 131_072 + 3;
    v.name.push_str(&"q".repeat(n));
    let compress = r.bool();
    let bytes = must("serialize_to_bytes", || jstprove_io::serialize_to_bytes(&v, compress))?;
    for back in 1..=12usize {
        let mut m = bytes.clone();
        let k = m.len() - back;
        m[k] ^= 1 << r.below(8);
        corrupt_outcome(c, &d, &v, &m, &format!("bit in byte -{back}"), true)?;
        corrupt_outcome(c, &d, &v, &bytes[..bytes.len() - back], &format!("last {back} bytes missing"), true)?;
        c.ev("tail_cases");
    }
    Ok(())
}

pub fn a02() -> Spec {
    Spec {
        id: "A02",
        level: "exploration",
        rule: "written artifacts are damaged (bursts of <=32 bits, byte overwrites, swaps, every truncation point and every payload byte of small artifacts, every header bit, tails of large ones) and read through both readers; distinct = distinct damaged byte string",
        assumptions: &["the stored type is a record with required fields", "damage beyond a 32-bit burst is detected up to the 2^-32 collision rate of the checksum"],
        require: &[("rejected_bytes", 2000), ("rejected_file", 2000), ("truncation_points", 500), ("payload_bytes_hit", 500), ("tail_cases", 60)],
        families: vec![
            Family { name: "flip", quick: 300, thorough: 12_000, f: a02_flip },
            Family { name: "exhaustive", quick: 16, thorough: 400, f: a02_exhaustive },
            Family { name: "tail", quick: 24, thorough: 300, f: a02_tail },
        ],
    }
}

// ---------------------------------------------------------------- A03 released formats

fn read_both<T: DeserializeOwned + PartialEq + Debug>(c: &mut Case, d: &Scratch, v: &T, bytes: &[u8], kind: &str) -> R {
    c.evals += 1;
    let a: T = must(&format!("bytes-reader-{kind}"), || jstprove_io::deserialize_from_bytes(bytes))?;
    check!(&a == v, format!("bytes-reader-{kind}-value"), "memory reader changed a {kind} artifact of {} bytes", bytes.len());
    let p = d.join("l.bin");
    std::fs::write(&p, bytes).unwrap();
    let b: T = must(&format!("file-reader-{kind}"), || jstprove_io::deserialize_from_file(&p))?;
    check!(&b == v, format!("file-reader-{kind}-value"), "file reader changed a {kind} artifact of {} bytes", bytes.len());
    c.ev(&format!("read_{kind}"));
    if bytes.len() < 20 {
        c.ev("read_shorter_than_header");
    }
    c.seen(hash_bytes(bytes));
    Ok(())
}

fn a03_formats<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Case, v: &T) -> R {
    let d = c.scratch();
    let mut r = c.rng.clone();
    let mp = rmp_serde::to_vec_named(v).unwrap();
    let z = zstd_ref(&mut r, &mp);
    read_both(c, &d, v, &envelope_ref(&mp, false), "envelope")?;
    read_both(c, &d, v, &envelope_ref(&z, true), "envelope-zstd")?;
    read_both(c, &d, v, &z, "legacy-zstd")?;
    read_both(c, &d, v, &mp, "raw-msgpack")?;
    // and what is written today follows the same layout
    for compress in [false, true] {
        let w = must("serialize_to_bytes", || jstprove_io::serialize_to_bytes(v, compress))?;
        check!(w.len() >= 20 && &w[..4] == b"JST\x01", "layout-magic", "artifact does not start with the released magic: {}", hexs(&w[..w.len().min(24)]));
        let flags = u32::from_le_bytes(w[4..8].try_into().unwrap());
        check!(flags == compress as u32, "layout-flags", "flags field is {flags:#x} for compress={compress}");
        let len = u64::from_le_bytes(w[8..16].try_into().unwrap());
        check!(len == (w.len() - 20) as u64, "layout-length", "length field {len}, payload {}", w.len() - 20);
        let crc = u32::from_le_bytes(w[16..20].try_into().unwrap());
        check!(crc == crc32c_ref(&w[20..]), "layout-crc", "checksum field {crc:#x}, CRC-32C of the payload {:#x}", crc32c_ref(&w[20..]));
        let payload = if compress {
            match zstd::decode_all(&w[20..]) {
                Ok(p) => p,
                Err(e) => return bad("layout-zstd", format!("payload flagged zstd does not decode: {e}")),
            }
        } else {
            w[20..].to_vec()
        };
        let back: T = match rmp_serde::from_slice(&payload) {
            Ok(v) => v,
            Err(e) => return bad("layout-msgpack", format!("payload is not the MessagePack encoding: {e}")),
        };
        check!(&back == v, "layout-value", "payload decodes to another value");
        c.ev("layout_checked");
    }
    c.sample = Some(json!({"msgpack_bytes": mp.len(), "zstd_bytes": z.len()}));
    Ok(())
}

fn a03_struct(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let sz = size_class(&mut r, c);
    let v = gen_art(&mut r, sz, 2);
    c.rng = r;
    a03_formats(c, &v)
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Tiny {
    a: u8,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct TinyS {
    s: String,
}

fn a03_tiny(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    match c.idx % 6 {
        0 => a03_formats(c, &Tiny { a: r.u64() as u8 }),
        1 => {
            let n = r.below(40);
            a03_formats(c, &TinyS { s: "k".repeat(n) })
        }
        2 => a03_formats(c, &gen_i64(&mut r)),
        3 => a03_formats(c, &(0..r.below(12)).map(|_| r.range(-20, 20)).collect::<Vec<i64>>()),
        4 => a03_formats(c, &BTreeMap::<String, u8>::from([("n".into(), 3)])),
        _ => a03_formats(c, &Option::<u32>::None),
    }
}

pub fn a03() -> Spec {
    Spec {
        id: "A03",
        level: "exploration",
        rule: "artifacts are produced by an independent encoder of the released layouts (framed, framed+zstd, bare zstd with and without checksum/content size/multiple flushes, raw MessagePack; 1 byte to MBs) and must be read by both readers; freshly written artifacts are decoded by an independent decoder; distinct = distinct encoded artifact",
        assumptions: &["released layout: 'JST\\x01', flags u32 LE, payload length u64 LE, CRC-32C u32 LE, payload"],
        require: &[("read_envelope", 100), ("read_envelope-zstd", 100), ("read_legacy-zstd", 100), ("read_raw-msgpack", 100), ("layout_checked", 200), ("read_shorter_than_header", 20)],
        families: vec![
            Family { name: "struct", quick: 400, thorough: 12_000, f: a03_struct },
            Family { name: "tiny", quick: 240, thorough: 3_000, f: a03_tiny },
        ],
    }
}

// ---------------------------------------------------------------- A04 bundles

#[derive(Clone, Debug)]
pub struct BundleCase {
    pub circuit: Vec<u8>,
    pub ws: Vec<u8>,
    pub vk: Option<Vec<u8>>,
    pub meta: Option<Meta>,
    pub version: Option<ArtifactVersion>,
    pub compress: bool,
}

fn gen_blob(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => r.below(5),
        2 => *r.pick(&[8191usize, 8192, 8193, 16384, 65536, 131_072, 131_073]),
        3 => r.below(max.max(1)),
        _ => r.below(3000),
    }
    .min(max);
    let mut b = match r.below(3) {
        0 => vec![r.u64() as u8; n],
        1 => r.bytes(n),
        _ => (0..n).map(|i| ((i * 7) / 13) as u8).collect(),
    };
    // content that looks like one of the formats
    if r.chance(1, 4) {
        let pre: &[u8] = match r.below(5) {
            0 => b"JST\x01",
            1 => &[0x28, 0xB5, 0x2F, 0xFD],
            2 => &[0x28, 0xB5, 0x2F],
            3 => b"JST\x01\0\0\0\0\x04\0\0\0\0\0\0\0\0\0\0\0",
            _ => &[0x93, 1, 2, 3],
        };
        let mut v = pre.to_vec();
        v.extend_from_slice(&b);
        b = v;
    }
    if r.chance(1, 20) {
        b = zstd::encode_all(b.as_slice(), 1).unwrap();
    }
    b
}

pub fn gen_bundle(r: &mut Rng, max: usize) -> BundleCase {
    BundleCase {
        circuit: gen_blob(r, max),
        ws: gen_blob(r, max),
        vk: if r.bool() { Some(gen_blob(r, max)) } else { None },
        meta: if r.chance(3, 4) { Some(gen_meta(r)) } else { None },
        version: match r.below(3) {
            0 => None,
            1 => Some(jstprove_io::version::current()),
            _ => Some(ArtifactVersion { crate_version: gen_string(r, 12), git_rev: gen_string(r, 12) }),
        },
        compress: r.bool(),
    }
}

pub fn write_case(dir: &Path, b: &BundleCase) -> anyhow::Result<()> {
    bundle::write_bundle_with_vk(dir, &b.circuit, &b.ws, b.vk.as_deref(), b.meta.clone(), b.version.clone(), b.compress)
}

fn same_version(a: &Option<ArtifactVersion>, b: &Option<ArtifactVersion>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x.crate_version == y.crate_version && x.git_rev == y.git_rev,
        _ => false,
    }
}

/// Compare a bundle on disk with what was written, through every reader.
pub fn compare_bundle(dir: &Path, b: &BundleCase) -> R {
    let got: BundleBlobs<Meta> = must("read_bundle", || bundle::read_bundle(dir))?;
    check!(got.circuit == b.circuit, "bundle-circuit", "circuit blob changed: wrote {} got {}", hexs(&b.circuit), hexs(&got.circuit));
    check!(got.witness_solver == b.ws, "bundle-witness-solver", "witness-solver blob changed: wrote {} got {}", hexs(&b.ws), hexs(&got.witness_solver));
    check!(got.vk == b.vk, "bundle-vk", "vk changed: wrote {:?} got {:?}", b.vk.as_ref().map(Vec::len), got.vk.as_ref().map(Vec::len));
    check!(got.metadata == b.meta, "bundle-metadata", "metadata changed");
    check!(same_version(&got.version, &b.version), "bundle-version", "version changed: wrote {:?} got {:?}", b.version, got.version);
    let only = must("read_circuit_blob", || bundle::read_circuit_blob(dir))?;
    check!(only == b.circuit, "bundle-circuit-only", "circuit-only read differs from the stored circuit");
    let (m, v) = must("read_bundle_metadata", || bundle::read_bundle_metadata::<Meta>(dir))?;
    check!(m == b.meta && same_version(&v, &b.version), "bundle-metadata-only", "metadata-only read differs");
    let has = guarded(|| bundle::bundle_has_vk(dir)).map_err(|p| Bad { sig: "has-vk-panic".into(), why: p })?;
    check!(has == b.vk.is_some(), "bundle-has-vk", "bundle_has_vk = {has}, vk written: {}", b.vk.is_some());
    match (lib("read_vk_only", || bundle::read_vk_only(dir))?, &b.vk) {
        (Ok(v), Some(w)) => check!(&v == w, "bundle-vk-only", "vk-only read differs"),
        (Err(_), None) => {}
        (Ok(_), None) => return bad("bundle-vk-only-missing", "read_vk_only succeeded on a bundle without a key"),
        (Err(e), Some(_)) => return bad("bundle-vk-only-error", format!("read_vk_only failed: {e}")),
    }
    Ok(())
}

fn a04_roundtrip(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let max = if c.tier == crate::report::Tier::Thorough { 3_000_000 } else { 400_000 };
    let b = gen_bundle(&mut r, max);
    let d = c.scratch();
    let dir = d.join("bundle.dir");
    let sig = format!(
        "{}|{}|{:?}|{}|{}|{}",
        hash_bytes(&b.circuit), hash_bytes(&b.ws), b.vk.as_ref().map(|v| hash_bytes(v)), b.meta.is_some(), b.version.is_some(), b.compress
    );
    c.seen_str(&sig);
    c.note(format!("{:.400?}", b));
    c.sample = Some(json!({"circuit": b.circuit.len(), "ws": b.ws.len(), "vk": b.vk.as_ref().map(Vec::len), "compress": b.compress}));
    if b.vk.is_none() && r.bool() {
        must("write_bundle", || bundle::write_bundle(&dir, &b.circuit, &b.ws, b.meta.clone(), b.version.clone(), b.compress))?;
    } else {
        must("write_bundle_with_vk", || write_case(&dir, &b))?;
    }
    c.ev(if b.compress { "bundle_compressed" } else { "bundle_plain" });
    c.ev(if b.vk.is_some() { "bundle_with_vk" } else { "bundle_without_vk" });
    if b.circuit.starts_with(&[0x28, 0xB5, 0x2F, 0xFD]) && !b.compress {
        c.ev("plain_blob_with_zstd_magic");
    }
    compare_bundle(&dir, &b)?;
    // the key and the metadata are readable without the big blobs
    std::fs::remove_file(dir.join("circuit.bin")).ok();
    if let Some(vk) = &b.vk {
        let v = must("read_vk_only", || bundle::read_vk_only(&dir))?;
        check!(&v == vk, "vk-only-independent", "vk-only read needs the circuit");
    }
    let _ = must("read_bundle_metadata", || bundle::read_bundle_metadata::<Meta>(&dir))?;
    let o: Result<BundleBlobs<Meta>, String> = lib("read_bundle", || bundle::read_bundle(&dir))?;
    check!(o.is_err(), "bundle-missing-circuit", "a bundle without its circuit was read as complete");
    Ok(())
}

/// Each missing, truncated or damaged component is reported, never returned as data.
fn a04_damage(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut b = gen_bundle(&mut r, 20_000);
    b.compress = true;
    let d = c.scratch();
    let dir = d.join("b");
    must("write_bundle_with_vk", || write_case(&dir, &b))?;
    let mut files = vec!["circuit.bin", "witness_solver.bin", "manifest.msgpack"];
    if b.vk.is_some() {
        files.push("vk.bin");
    }
    for f in files {
        let p = dir.join(f);
        let orig = std::fs::read(&p).unwrap();
        for _ in 0..3 {
            let cut = r.below(orig.len());
            // a file cut inside the 4-byte magic is no longer recognisable as compressed
            if f != "manifest.msgpack" && cut < 4 {
                continue;
            }
            std::fs::write(&p, &orig[..cut]).unwrap();
            let o: Result<BundleBlobs<Meta>, String> = lib("read_bundle", || bundle::read_bundle(&dir))?;
            check!(o.is_err(), format!("truncated-{f}"), "{f} truncated to {cut} of {} bytes was read as complete", orig.len());
            if f == "vk.bin" {
                let o = lib("read_vk_only", || bundle::read_vk_only(&dir))?;
                check!(o.is_err(), "truncated-vk-only", "truncated vk.bin read as complete");
            }
            if f == "circuit.bin" {
                let o = lib("read_circuit_blob", || bundle::read_circuit_blob(&dir))?;
                check!(o.is_err(), "truncated-circuit-only", "truncated circuit.bin read as complete");
            }
            c.ev("truncated_component");
            c.seen_str(&format!("{}|{f}|{cut}", c.seed));
        }
        if f == "manifest.msgpack" {
            for _ in 0..6 {
                let mut m = orig.clone();
                let k = 16 + r.below(m.len() - 16);
                m[k] ^= 1 << r.below(8);
                std::fs::write(&p, &m).unwrap();
                let o: Result<BundleBlobs<Meta>, String> = lib("read_bundle", || bundle::read_bundle(&dir))?;
                check!(o.is_err(), "damaged-manifest", "manifest with byte {k} damaged was accepted");
                let o = lib("read_bundle_metadata", || bundle::read_bundle_metadata::<Meta>(&dir))?;
                check!(o.is_err(), "damaged-manifest-metadata", "manifest with byte {k} damaged was accepted by the metadata reader");
                c.ev("damaged_manifest");
            }
        }
        std::fs::remove_file(&p).unwrap();
        let o: Result<BundleBlobs<Meta>, String> = lib("read_bundle", || bundle::read_bundle(&dir))?;
        if f == "vk.bin" {
            match o {
                Ok(x) => check!(x.vk.is_none() && x.circuit == b.circuit, "removed-vk", "bundle with its key removed misread"),
                Err(e) => return bad("removed-vk-error", format!("bundle without the optional key rejected: {e}")),
            }
        } else {
            check!(o.is_err(), format!("missing-{f}"), "bundle without {f} was read as complete");
        }
        c.ev("missing_component");
        std::fs::write(&p, &orig).unwrap();
    }
    compare_bundle(&dir, &b)
}

/// stored component names and layouts released so far
fn a04_released(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut b = gen_bundle(&mut r, 9_000);
    for x in [&mut b.circuit, &mut b.ws] {
        if x.starts_with(&[0x28, 0xB5, 0x2F, 0xFD]) {
            x[0] = 0;
        }
    }
    if let Some(x) = &mut b.vk {
        if x.starts_with(&[0x28, 0xB5, 0x2F, 0xFD]) {
            x[0] = 0;
        }
    }
    let d = c.scratch();
    let dir = d.join("old");
    std::fs::create_dir(&dir).unwrap();
    let mut put = |n: &str, x: &[u8]| {
        let y = if r.bool() { zstd_ref(&mut r, x) } else { x.to_vec() };
        std::fs::write(dir.join(n), y).unwrap();
    };
    put("circuit.bin", &b.circuit);
    put("witness_solver.bin", &b.ws);
    if let Some(v) = &b.vk {
        put("vk.bin", v);
    }
    #[derive(Serialize)]
    struct M {
        metadata: Option<Meta>,
        #[serde(skip_serializing_if = "Option::is_none")]
        version: Option<ArtifactVersion>,
    }
    let mp = rmp_serde::to_vec_named(&M { metadata: b.meta.clone(), version: b.version.clone() }).unwrap();
    let man = match r.below(3) {
        0 if mp.len() >= 20 => mp,
        1 => envelope_ref(&zstd_ref(&mut r, &mp), true),
        _ => envelope_ref(&mp, false),
    };
    std::fs::write(dir.join("manifest.msgpack"), man).unwrap();
    compare_bundle(&dir, &b)?;
    c.ev("released_layout");
    c.seen(hash_bytes(&b.circuit) ^ c.seed);
    // and what is written today uses those names only
    let dir2 = d.join("new");
    must("write_bundle_with_vk", || write_case(&dir2, &b))?;
    let mut names: Vec<String> = std::fs::read_dir(&dir2).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    names.sort();
    let mut want = vec!["circuit.bin", "manifest.msgpack", "witness_solver.bin"];
    if b.vk.is_some() {
        want.insert(2, "vk.bin");
    }
    check!(names == want, "bundle-files", "bundle contains {names:?}, released layout {want:?}");
    Ok(())
}

pub fn a04() -> Spec {
    Spec {
        id: "A04",
        level: "exploration",
        rule: "bundles over blob contents (empty, tiny, buffer-boundary sizes, hundreds of kB, contents that look like one of the container formats), with/without key, metadata, version, compression; read back through every reader, then with components removed, truncated or damaged; distinct = distinct contents/flags or damage point",
        assumptions: &["blobs carry no checksum of their own: damage inside an uncompressed blob is out of scope"],
        require: &[("bundle_plain", 100), ("bundle_compressed", 100), ("bundle_with_vk", 100), ("bundle_without_vk", 100), ("plain_blob_with_zstd_magic", 2), ("truncated_component", 50), ("missing_component", 50), ("damaged_manifest", 50), ("released_layout", 30)],
        families: vec![
            Family { name: "roundtrip", quick: 700, thorough: 15_000, f: a04_roundtrip },
            Family { name: "damage", quick: 80, thorough: 2_000, f: a04_damage },
            Family { name: "released", quick: 120, thorough: 2_000, f: a04_released },
        ],
    }
}

// ---------------------------------------------------------------- A05 / A08 faults and crashes

fn shim() -> PathBuf {
    PathBuf::from(std::env::var_os("VMON_SHIM").expect("VMON_SHIM set by check.sh"))
}

/// What the case of a child process is; reconstructed in the child from the seed.
pub fn child_bundle(seed: u64, big: bool) -> BundleCase {
    let mut r = Rng::new(seed ^ 0xB0B);
    let max = if big { 200_000 } else { 12_000 };
    let mut b = gen_bundle(&mut r, max);
    if r.chance(1, 4) {
        b.circuit = r.bytes(r.clone().us(10, 40)); // everything fits one buffer
    }
    b
}

struct ChildRun {
    code: i32,
    log: Vec<String>,
    stderr: String,
}

fn run_child(d: &Scratch, root: &Path, args: &[&str], env: &[(&str, String)]) -> ChildRun {
    let log = d.join("events.log");
    let _ = std::fs::remove_file(&log);
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("--child").args(args).env("LD_PRELOAD", shim()).env("VF_ROOT", root).env("VF_LOG", &log);
    for (k, v) in env {
        cmd.env(k, v);
    }
    let out = cmd.stdin(std::process::Stdio::null()).output().expect("spawn child");
    use std::os::unix::process::ExitStatusExt;
    let code = out.status.code().unwrap_or_else(|| -out.status.signal().unwrap_or(0));
    let log = std::fs::read_to_string(&log).unwrap_or_default().lines().map(str::to_string).collect();
    ChildRun { code, log, stderr: String::from_utf8_lossy(&out.stderr).into_owned() }
}

fn count_class(log: &[String], cls: char) -> usize {
    log.iter()
        .filter(|l| {
            let op = l.split(' ').next().unwrap_or("");
            if cls == 'w' {
                matches!(op, "open" | "mkdir" | "mkdirat" | "rename" | "renameat" | "link" | "symlink" | "write" | "fsync" | "fdatasync" | "ftruncate")
            } else {
                matches!(op, "open-r" | "read")
            }
        })
        .count()
}

/// every entry below `p`, with contents
fn snapshot(p: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(base: &Path, p: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let q = e.path();
            let rel = q.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            if q.is_dir() && !q.is_symlink() {
                out.insert(rel, None);
                walk(base, &q, out);
            } else {
                out.insert(rel, Some(std::fs::read(&q).unwrap_or_default()));
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(p, p, &mut m);
    m
}

fn diff_snap(a: &BTreeMap<String, Option<Vec<u8>>>, b: &BTreeMap<String, Option<Vec<u8>>>) -> String {
    let mut s = vec![];
    for (k, v) in b {
        match a.get(k) {
            None => s.push(format!("+{k}({})", v.as_ref().map_or("dir".into(), |x| format!("{} B", x.len())))),
            Some(w) if w != v => s.push(format!("~{k}")),
            _ => {}
        }
    }
    for k in a.keys() {
        if !b.contains_key(k) {
            s.push(format!("-{k}"));
        }
    }
    s.join(" ")
}

fn populate(root: &Path) {
    std::fs::create_dir_all(root.join("neighbour")).unwrap();
    std::fs::write(root.join("neighbour/keep.bin"), b"keep me").unwrap();
    std::fs::write(root.join("bundle.tmp"), b"not yours").unwrap();
}

fn a05_enumerate(c: &mut Case) -> R {
    let d = c.scratch();
    let root = d.join("root");
    std::fs::create_dir(&root).unwrap();
    let seed = c.seed.to_string();
    let big = c.idx % 3 == 0;
    let bflag = if big { "1" } else { "0" };
    let b = child_bundle(c.seed, big);
    let dir = root.join("bundle");
    let dirs = dir.to_string_lossy().into_owned();
    populate(&root);
    let before = snapshot(&root);
    // fault-free run under the event log: counts the fault points
    let base = run_child(&d, &root, &["bundle-write", &seed, bflag, &dirs], &[("VF_AT", "-1".into())]);
    check!(base.code == 0, "bundle-write-nofault", "write failed without any fault: code {} {}", base.code, base.stderr);
    compare_bundle(&dir, &b)?;
    let points = count_class(&base.log, 'w');
    check!(points >= 4, "shim-blind", "only {points} filesystem calls seen");
    let after = snapshot(&root);
    let extra: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k) && !k.starts_with("bundle/") && *k != "bundle").collect();
    check!(extra.is_empty(), "stray-files", "a successful write left {extra:?} next to the bundle");
    std::fs::remove_dir_all(&dir).unwrap();
    for mode in ["enospc", "eio", "sticky", "short", "eintr"] {
        for k in 0..points {
            c.evals += 1;
            let run = run_child(&d, &root, &["bundle-write", &seed, bflag, &dirs], &[("VF_AT", k.to_string()), ("VF_MODE", mode.into())]);
            let fired = run.log.iter().any(|l| ["FAULT", "SHORT", "EINTR"].iter().any(|t| l.ends_with(t)));
            let at: String = run.log.iter().find(|l| ["FAULT", "SHORT", "EINTR"].iter().any(|t| l.ends_with(t))).cloned().unwrap_or_default().replace(&root.to_string_lossy().into_owned(), "");
            let op = at.split(' ').next().unwrap_or("").to_string();
            let now = snapshot(&root);
            match run.code {
                0 => {
                    if let Err(e) = compare_bundle(&dir, &b) {
                        return bad(format!("lost-write-{op}"), format!("a {mode} fault at call {k} ({at}) was swallowed: the write reported success but the bundle is wrong: {} (compress={})", e.why, b.compress));
                    }
                    if fired {
                        c.ev(&format!("survived_{mode}"));
                    }
                    std::fs::remove_dir_all(&dir).unwrap();
                }
                10 => {
                    check!(mode != "short" && mode != "eintr", format!("benign-{mode}"), "a harmless {mode} at call {k} ({at}) made the write fail: {}", run.stderr);
                    let df = diff_snap(&before, &now);
                    check!(df.is_empty(), format!("leftover-{op}"), "after a failed write ({mode} at call {k}: {at}; compress={}) the directory holds: {df}", b.compress);
                    c.ev("fault_rolled_back");
                    c.ev(&format!("fault_at_{op}"));
                }
                x => return bad("child-abnormal", format!("{mode} at call {k} ({at}): child ended with {x}: {}", run.stderr)),
            }
            c.seen_str(&format!("{}|{mode}|{k}|{}", c.idx, at));
            if c.sample.is_none() && run.code == 10 {
                c.sample = Some(json!({"mode": mode, "call": k, "event": at, "points": points, "outcome": "error reported, directory unchanged"}));
            }
        }
    }
    // size limit reached in the middle of a file (partial write, then EFBIG)
    let total: u64 = (b.circuit.len() + b.ws.len() + b.vk.as_ref().map_or(0, Vec::len)) as u64;
    let mut r = c.rng.clone();
    for _ in 0..4 {
        let lim = r.below(total.max(2) as usize + 64) as u64;
        c.evals += 1;
        let run = run_child(&d, &root, &["bundle-write", &seed, bflag, &dirs, &lim.to_string()], &[("VF_AT", "-1".into())]);
        let now = snapshot(&root);
        match run.code {
            0 => {
                if let Err(e) = compare_bundle(&dir, &b) {
                    return bad("lost-write-fsize", format!("file-size limit {lim}: success reported, bundle wrong: {}", e.why));
                }
                std::fs::remove_dir_all(&dir).unwrap();
                c.ev("fsize_not_reached");
            }
            10 => {
                let df = diff_snap(&before, &now);
                check!(df.is_empty(), "leftover-fsize", "after a failed write (file-size limit {lim}) the directory holds: {df}");
                c.ev("fault_fsize_rolled_back");
            }
            x => return bad("child-abnormal", format!("fsize {lim}: child ended with {x}: {}", run.stderr)),
        }
        c.seen_str(&format!("{}|fsize|{lim}", c.idx));
    }
    Ok(())
}

/// Metadata that fails or panics while being serialized, after `n` entries.
struct Bomb {
    after: usize,
    panic: bool,
}
impl Serialize for Bomb {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(Some(self.after + 1))?;
        for i in 0..self.after {
            m.serialize_entry(&format!("k{i}"), &i)?;
        }
        if self.panic {
            panic!("serialization panics");
        }
        Err(serde::ser::Error::custom("serialization fails"))
    }
}

fn a05_inprocess(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let b = gen_bundle(&mut r, 20_000);
    let d = c.scratch();
    let root = d.join("root");
    std::fs::create_dir(&root).unwrap();
    populate(&root);
    let dir = root.join("bundle");
    let kind = c.idx % 7;
    c.evals += 1;
    match kind {
        0 | 1 => {
            let before = snapshot(&root);
            let bomb = Bomb { after: r.below(50), panic: kind == 1 };
            let o = guarded(|| bundle::write_bundle_with_vk(&dir, &b.circuit, &b.ws, b.vk.as_deref(), Some(bomb), b.version.clone(), b.compress));
            check!(!matches!(o, Ok(Ok(()))), "bomb-accepted", "unserializable metadata reported as written");
            let df = diff_snap(&before, &snapshot(&root));
            check!(df.is_empty(), "leftover-metadata", "after failing metadata serialization the directory holds: {df}");
            c.ev(if kind == 1 { "metadata_panics" } else { "metadata_fails" });
        }
        2 | 3 => {
            // an existing directory (a bundle or not) is never modified
            if kind == 2 {
                let old = gen_bundle(&mut r, 2_000);
                must("write_bundle_with_vk", || write_case(&dir, &old))?;
            } else {
                std::fs::create_dir(&dir).unwrap();
                if r.bool() {
                    std::fs::write(dir.join(*r.pick(&["circuit.bin", "manifest.msgpack", "vk.bin", "other"])), b"old").unwrap();
                }
            }
            let before = snapshot(&root);
            let o = lib("write_bundle_with_vk", || write_case(&dir, &b))?;
            check!(o.is_err(), "overwrote-existing", "writing over an existing directory was reported as success");
            let df = diff_snap(&before, &snapshot(&root));
            check!(df.is_empty(), "modified-existing", "a refused write changed the existing directory: {df}");
            c.ev("existing_untouched");
        }
        4 => {
            std::fs::write(&dir, b"a file in the way").unwrap();
            let before = snapshot(&root);
            let o = lib("write_bundle_with_vk", || write_case(&dir, &b))?;
            check!(o.is_err(), "overwrote-file", "writing over an existing file was reported as success");
            let df = diff_snap(&before, &snapshot(&root));
            check!(df.is_empty(), "modified-file", "a refused write changed the existing file: {df}");
            c.ev("existing_untouched");
        }
        5 => {
            let before = snapshot(&root);
            let deep = root.join("no/such/parent/bundle");
            let o = lib("write_bundle_with_vk", || write_case(&deep, &b))?;
            match o {
                Err(_) => {
                    let df = diff_snap(&before, &snapshot(&root));
                    check!(df.is_empty(), "leftover-parent", "a failed write left: {df}");
                }
                // creating the parents would be fine as well, if the bundle is there
                Ok(()) => compare_bundle(&deep, &b)?,
            }
            c.ev("missing_parent");
        }
        _ => {
            // a dangling symlink where the bundle should go
            std::os::unix::fs::symlink(root.join("neighbour/absent"), &dir).unwrap();
            let before = snapshot(&root.join("neighbour"));
            let o = lib("write_bundle_with_vk", || write_case(&dir, &b))?;
            if o.is_err() {
                let df = diff_snap(&before, &snapshot(&root.join("neighbour")));
                check!(df.is_empty(), "leftover-symlink", "a failed write left: {df}");
            }
            c.ev("symlink_target");
        }
    }
    c.seen_str(&format!("{kind}|{}", hash_bytes(&b.circuit)));
    Ok(())
}

/// serialize_to_file / streaming writers: success is only reported when everything was stored.
fn a05_file_writes(c: &mut Case) -> R {
    let d = c.scratch();
    let root = d.join("root");
    std::fs::create_dir(&root).unwrap();
    let seed = c.seed.to_string();
    let path = root.join("f.bin").to_string_lossy().into_owned();
    let op = ["file-write", "stream-write"][(c.idx % 2) as usize];
    let base = run_child(&d, &root, &[op, &seed, &path], &[("VF_AT", "-1".into())]);
    check!(base.code == 0, "file-write-nofault", "{op} failed without fault: {} {}", base.code, base.stderr);
    let want = std::fs::read(&path).unwrap();
    let points = count_class(&base.log, 'w');
    for mode in ["enospc", "sticky", "short", "eintr"] {
        for k in 0..points {
            c.evals += 1;
            let _ = std::fs::remove_file(&path);
            let run = run_child(&d, &root, &[op, &seed, &path], &[("VF_AT", k.to_string()), ("VF_MODE", mode.into())]);
            let at: String = run.log.iter().find(|l| ["FAULT", "SHORT", "EINTR"].iter().any(|t| l.ends_with(t))).cloned().unwrap_or_default().replace(&root.to_string_lossy().into_owned(), "");
            match run.code {
                0 => {
                    let got = std::fs::read(&path).unwrap_or_default();
                    // map order differs between processes: compare the artifact, not its bytes
                    let same = if op == "file-write" { rmp_art(&got).as_ref() == rmp_art(&want).as_ref() } else { got == want };
                    check!(same, format!("{op}-lost"), "{op}: a {mode} fault at call {k} ({at}) was swallowed: success reported, {} of {} bytes stored", got.len(), want.len());
                    c.ev("file_survived");
                }
                10 => {
                    check!(mode != "short" && mode != "eintr", format!("{op}-benign-{mode}"), "{op}: a harmless {mode} made the write fail: {}", run.stderr);
                    c.ev("file_fault_reported");
                }
                x => return bad(format!("{op}-abnormal"), format!("{mode} at {k}: child ended with {x}: {}", run.stderr)),
            }
            c.seen_str(&format!("{op}|{}|{mode}|{k}", c.idx));
        }
    }
    Ok(())
}

fn rmp_art(stored: &[u8]) -> Option<Art> {
    let body = stored.get(20..)?;
    if stored[4] & 1 == 1 {
        rmp_serde::from_slice(&zstd::decode_all(body).ok()?).ok()
    } else {
        rmp_serde::from_slice(body).ok()
    }
}

/// Read side: an I/O error while reading is reported; short and interrupted reads are harmless.
fn a05_reads(c: &mut Case) -> R {
    let d = c.scratch();
    let root = d.join("root");
    std::fs::create_dir(&root).unwrap();
    let seed = c.seed.to_string();
    let dir = root.join("bundle");
    let dirs = dir.to_string_lossy().into_owned();
    let b = child_bundle(c.seed, true);
    must("write_bundle_with_vk", || write_case(&dir, &b))?;
    let what = ["bundle-read", "bundle-read-parts"][(c.idx % 2) as usize];
    let base = run_child(&d, &root, &[what, &seed, "1", &dirs], &[("VF_AT", "-1".into()), ("VF_CLASS", "r".into())]);
    check!(base.code == 0, "read-nofault", "{what} failed: {} {}", base.code, base.stderr);
    let points = count_class(&base.log, 'r');
    check!(points >= 4, "shim-blind-read", "only {points} reads seen");
    for mode in ["eio", "short", "eintr"] {
        let step = (points / 24).max(1);
        let ks: Vec<i64> = std::iter::once(-2).chain((0..points as i64).step_by(step)).collect();
        for k in ks {
            // every call at once only makes sense for harmless short reads
            if k == -2 && mode != "short" {
                continue;
            }
            c.evals += 1;
            let run = run_child(&d, &root, &[what, &seed, "1", &dirs], &[("VF_AT", k.to_string()), ("VF_MODE", mode.into()), ("VF_CLASS", "r".into())]);
            let fired = run.log.iter().any(|l| ["FAULT", "SHORT", "EINTR"].iter().any(|t| l.ends_with(t)));
            match (mode, run.code) {
                (_, 11) => return bad(format!("{what}-wrong-{mode}"), format!("{what}: a {mode} at read {k} made the reader return different data: {}", run.stderr)),
                ("eio", 0) if fired => {
                    // the trailing end-of-file probe may legitimately be skipped or its result unused only if all data arrived;
                    // the child compared the data and found it complete
                    c.ev("read_fault_harmless");
                }
                ("eio", 10) => c.ev("read_fault_reported"),
                ("short" | "eintr", 10) => return bad(format!("{what}-benign-{mode}"), format!("{what}: a harmless {mode} at read {k} failed: {}", run.stderr)),
                (_, 0) => c.ev("read_ok"),
                (_, x) => return bad(format!("{what}-abnormal"), format!("{mode} at {k}: child ended with {x}: {}", run.stderr)),
            }
            c.seen_str(&format!("{what}|{}|{mode}|{k}", c.idx));
        }
    }
    Ok(())
}

pub fn a05() -> Spec {
    Spec {
        id: "A05",
        level: "fault_enumeration",
        rule: "every filesystem call a bundle/file write makes (seen by an interposed event log) is failed in turn with ENOSPC, EIO, ENOSPC-from-then-on, and disturbed by short and interrupted writes; file-size limits, failing/panicking metadata, occupied targets; read calls are failed likewise; distinct = (workload, mode, call, event)",
        assumptions: &["rollback deletions themselves succeed", "the process is not killed (see A06)"],
        require: &[("fault_rolled_back", 60), ("fault_at_write", 20), ("fault_at_open", 10), ("survived_short", 10), ("survived_eintr", 10), ("fault_fsize_rolled_back", 4), ("metadata_fails", 8), ("metadata_panics", 8), ("existing_untouched", 20), ("file_fault_reported", 8), ("read_fault_reported", 10), ("read_ok", 20)],
        families: vec![
            Family { name: "enumerate", quick: 24, thorough: 400, f: a05_enumerate },
            Family { name: "inprocess", quick: 140, thorough: 4_000, f: a05_inprocess },
            Family { name: "filewrites", quick: 24, thorough: 400, f: a05_file_writes },
            Family { name: "reads", quick: 16, thorough: 200, f: a05_reads },
        ],
    }
}

/// A06: a writer killed at any point never leaves something that reads as a complete bundle.
fn a06_crash(c: &mut Case) -> R {
    let d = c.scratch();
    let root = d.join("root");
    std::fs::create_dir(&root).unwrap();
    populate(&root);
    let before = snapshot(&root);
    let seed = c.seed.to_string();
    let big = c.idx % 3 == 0;
    let bflag = if big { "1" } else { "0" };
    let b = child_bundle(c.seed, big);
    let dir = root.join("bundle");
    let dirs = dir.to_string_lossy().into_owned();
    let base = run_child(&d, &root, &["bundle-write", &seed, bflag, &dirs], &[("VF_AT", "-1".into())]);
    check!(base.code == 0, "bundle-write-nofault", "write failed without any fault: {} {}", base.code, base.stderr);
    let points = count_class(&base.log, 'w');
    std::fs::remove_dir_all(&dir).unwrap();
    for mode in ["kill", "killafter", "killmid"] {
        for k in 0..points {
            c.evals += 1;
            let run = run_child(&d, &root, &["bundle-write", &seed, bflag, &dirs], &[("VF_AT", k.to_string()), ("VF_MODE", mode.into())]);
            if run.code == 0 {
                let _ = std::fs::remove_dir_all(&dir);
                continue;
            }
            check!(run.code == 137, "child-abnormal", "{mode} at {k}: child ended with {}: {}", run.code, run.stderr);
            c.ev("killed");
            let at = run.log.last().cloned().unwrap_or_default().replace(&root.to_string_lossy().into_owned(), "");
            // neighbours untouched
            let now = snapshot(&root);
            for (p, v) in &before {
                check!(now.get(p) == Some(v), "crash-neighbour", "killed at call {k} ({at}): {p} was changed");
            }
            // a reader after the crash
            let o: Result<BundleBlobs<Meta>, String> = lib("read_bundle", || bundle::read_bundle(&dir))?;
            match o {
                Err(_) => c.ev("crash_leftover_rejected"),
                Ok(g) => {
                    let same = g.circuit == b.circuit && g.witness_solver == b.ws && g.vk == b.vk && g.metadata == b.meta && same_version(&g.version, &b.version);
                    check!(same, "torn-bundle-read", "killed at call {k} of {points} ({at}, {mode}, compress={}): the leftover reads as a bundle with wrong contents (circuit {}/{}, solver {}/{}, vk {:?}/{:?})", b.compress, g.circuit.len(), b.circuit.len(), g.witness_solver.len(), b.ws.len(), g.vk.as_ref().map(Vec::len), b.vk.as_ref().map(Vec::len));
                    c.ev("crash_after_completion");
                }
            }
            let m = lib("read_bundle_metadata", || bundle::read_bundle_metadata::<Meta>(&dir))?;
            if let Ok((m, v)) = m {
                check!(m == b.meta && same_version(&v, &b.version), "torn-metadata", "killed at call {k} ({at}): leftover metadata reads as something else");
            }
            c.seen_str(&format!("{}|{mode}|{k}|{}", c.idx, run.log.len()));
            if c.sample.is_none() {
                c.sample = Some(json!({"mode": mode, "call": k, "of": points, "event": at}));
            }
            let _ = std::fs::remove_dir_all(&dir);
            for (p, _) in snapshot(&root) {
                if !before.contains_key(&p) {
                    let q = root.join(&p);
                    let _ = if q.is_dir() { std::fs::remove_dir_all(&q) } else { std::fs::remove_file(&q) };
                }
            }
        }
    }
    Ok(())
}

/// same for a single artifact file, including over an existing one
fn a06_file(c: &mut Case) -> R {
    let d = c.scratch();
    let root = d.join("root");
    std::fs::create_dir(&root).unwrap();
    let seed = c.seed.to_string();
    let path = root.join("f.bin");
    let ps = path.to_string_lossy().into_owned();
    let v = child_art(c.seed);
    let base = run_child(&d, &root, &["file-write", &seed, &ps], &[("VF_AT", "-1".into())]);
    check!(base.code == 0, "file-write-nofault", "{} {}", base.code, base.stderr);
    let points = count_class(&base.log, 'w');
    let old = gen_art(&mut c.rng.clone(), 50, 1);
    let over = c.idx % 2 == 0;
    for mode in ["kill", "killafter", "killmid"] {
        for k in 0..points {
            c.evals += 1;
            let _ = std::fs::remove_file(&path);
            if over {
                must("serialize_to_file", || jstprove_io::serialize_to_file(&old, &path, false))?;
            }
            let run = run_child(&d, &root, &["file-write", &seed, &ps], &[("VF_AT", k.to_string()), ("VF_MODE", mode.into())]);
            if run.code == 0 {
                continue;
            }
            check!(run.code == 137, "child-abnormal", "{} {}", run.code, run.stderr);
            c.ev("killed_file");
            let o: Result<Art, String> = lib("deserialize_from_file", || jstprove_io::deserialize_from_file(&path))?;
            if let Ok(x) = o {
                check!(x == v || (over && x == old), "torn-file-read", "killed at call {k} ({mode}): the file reads as a third value");
            }
            c.seen_str(&format!("f{}|{mode}|{k}", c.idx));
        }
    }
    Ok(())
}

pub fn a06() -> Spec {
    Spec {
        id: "A06",
        level: "fault_enumeration",
        rule: "the writer process is killed before, in the middle of, and after every filesystem call it makes (enumerated from the interposed event log); the leftover is then read; distinct = (workload, kill mode, call)",
        assumptions: &["process crash, not power loss: completed system calls survive"],
        require: &[("killed", 200), ("crash_leftover_rejected", 100), ("killed_file", 20)],
        families: vec![
            Family { name: "crash", quick: 40, thorough: 800, f: a06_crash },
            Family { name: "file", quick: 24, thorough: 300, f: a06_file },
        ],
    }
}

pub fn child_art(seed: u64) -> Art {
    let mut r = Rng::new(seed ^ 0xA57);
    let sz = *r.pick(&[5usize, 300, 9000]);
    gen_art(&mut r, sz, 1)
}

fn finish<T>(o: anyhow::Result<T>) -> i32 {
    match o {
        Ok(_) => 0,
        Err(e) => {
            eprintln!("{e:#}");
            10
        }
    }
}

fn set_fsize(lim: u64) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let l = libc::rlimit { rlim_cur: lim, rlim_max: lim };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
}

pub fn child(args: &[String]) -> Option<i32> {
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    Some(match a.as_slice() {
        ["pipe-echo"] => {
            let v: Art = match jstprove_io::read_msgpack_stdin() {
                Ok(v) => v,
                Err(e) => {
                    eprintln!("{e:#}");
                    return Some(10);
                }
            };
            finish(jstprove_io::write_msgpack_stdout(&v))
        }
        ["bundle-write", seed, big, dir, rest @ ..] => {
            let b = child_bundle(seed.parse().unwrap(), *big == "1");
            if let [lim] = rest {
                set_fsize(lim.parse().unwrap());
            }
            finish(write_case(Path::new(dir), &b))
        }
        ["bundle-read", seed, big, dir] => {
            let b = child_bundle(seed.parse().unwrap(), *big == "1");
            match bundle::read_bundle::<Meta>(Path::new(dir)) {
                Err(e) => finish::<()>(Err(e)),
                Ok(g) => {
                    if g.circuit == b.circuit && g.witness_solver == b.ws && g.vk == b.vk && g.metadata == b.meta {
                        0
                    } else {
                        eprintln!("circuit {}/{} solver {}/{} vk {:?}/{:?}", g.circuit.len(), b.circuit.len(), g.witness_solver.len(), b.ws.len(), g.vk.map(|v| v.len()), b.vk.map(|v| v.len()));
                        11
                    }
                }
            }
        }
        ["bundle-read-parts", seed, big, dir] => {
            let b = child_bundle(seed.parse().unwrap(), *big == "1");
            let dir = Path::new(dir);
            let run = || -> anyhow::Result<bool> {
                let (m, _) = bundle::read_bundle_metadata::<Meta>(dir)?;
                let c = bundle::read_circuit_blob(dir)?;
                let vk = if b.vk.is_some() { Some(bundle::read_vk_only(dir)?) } else { None };
                Ok(m == b.meta && c == b.circuit && vk == b.vk)
            };
            match run() {
                Err(e) => finish::<()>(Err(e)),
                Ok(true) => 0,
                Ok(false) => 11,
            }
        }
        ["file-write", seed, path] => {
            let s: u64 = seed.parse().unwrap();
            finish(jstprove_io::serialize_to_file(&child_art(s), Path::new(path), s & 2 == 0))
        }
        ["stream-write", seed, path] => {
            let s: u64 = seed.parse().unwrap();
            let data = child_bundle(s, true).circuit;
            let run = || -> anyhow::Result<()> {
                let f = std::fs::File::create(path)?;
                let mut w = jstprove_io::compressed_writer(f, s & 2 == 0)?;
                w.write_all(&data)?;
                w.finish()?;
                Ok(())
            };
            finish(run())
        }
        _ => return None,
    })
}

// ---------------------------------------------------------------- A07 stream codec

fn a07_stream(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut data = gen_blob(&mut r, 400_000);
    let compress = r.bool();
    if !compress && data.starts_with(&[0x28, 0xB5, 0x2F, 0xFD]) {
        data[0] = 0x29; // plain storage of something that is itself a zstd stream is out of scope
    }
    let d = c.scratch();
    let p = d.join("s.bin");
    c.note(format!("compress={compress} data={}", hexs(&data)));
    // write in arbitrary pieces with flushes in between
    let rr = r.clone();
    must("compressed_writer", || {
        let mut rr = rr;
        let mut w = jstprove_io::compressed_writer(std::fs::File::create(&p)?, compress)?;
        let mut off = 0;
        while off < data.len() {
            let n = (1 + rr.below(20_000)).min(data.len() - off);
            w.write_all(&data[off..off + n])?;
            if rr.chance(1, 6) {
                w.flush()?;
            }
            off += n;
        }
        w.finish()?;
        Ok(())
    })?;
    let stored = std::fs::read(&p).unwrap();
    if compress {
        let x = zstd::decode_all(stored.as_slice()).ok();
        check!(x.as_deref() == Some(&data[..]), "stored-not-zstd", "compressed file does not decode to the data");
    } else {
        check!(stored == data, "stored-plain", "plain file differs from the data");
    }
    // read in arbitrary pieces
    let got = must("auto_reader", || {
        let mut rr = r.clone();
        let mut rd = jstprove_io::auto_reader(std::fs::File::open(&p)?)?;
        let mut out = vec![];
        let mut buf = vec![0u8; 5000];
        loop {
            let n = 1 + rr.below(buf.len());
            let k = rd.read(&mut buf[..n])?;
            if k == 0 {
                break;
            }
            out.extend_from_slice(&buf[..k]);
        }
        Ok(out)
    })?;
    check!(got == data, "stream-roundtrip", "auto_reader returned {} bytes for {} written (compress={compress}): {} vs {}", got.len(), data.len(), hexs(&got), hexs(&data));
    // in-memory helpers
    let m = must("maybe_compress_bytes", || jstprove_io::maybe_compress_bytes(data.clone(), compress))?;
    let back = must("auto_decompress_bytes", || jstprove_io::auto_decompress_bytes(&m).map(|c| c.into_owned()))?;
    check!(back == data, "bytes-codec-roundtrip", "auto_decompress_bytes(maybe_compress_bytes(x)) != x for {} bytes", data.len());
    let z = must("compress_bytes", || jstprove_io::compress_bytes(&data))?;
    let back = must("decompress_bytes", || jstprove_io::decompress_bytes(&z))?;
    check!(back == data, "compress-roundtrip", "decompress_bytes(compress_bytes(x)) != x");
    let back = must("auto_decompress_bytes", || jstprove_io::auto_decompress_bytes(&z).map(|c| c.into_owned()))?;
    check!(back == data, "auto-decompress", "auto_decompress_bytes on compressed data differs");
    // memory and file routes are interchangeable
    let q = d.join("t.bin");
    std::fs::write(&q, &m).unwrap();
    let got = must("auto_reader", || {
        let mut o = vec![];
        jstprove_io::auto_reader(std::fs::File::open(&q)?)?.read_to_end(&mut o)?;
        Ok(o)
    })?;
    check!(got == data, "memory-to-file", "data compressed in memory is misread from a file");
    let got = must("auto_decompress_bytes", || jstprove_io::auto_decompress_bytes(&stored).map(|c| c.into_owned()))?;
    check!(got == data, "file-to-memory", "data written to a file is misread in memory");
    // truncation of compressed data is an error on both routes
    for _ in 0..3 {
        let cut = r.us(4, z.len() - 1);
        let o = lib("auto_decompress_bytes", || jstprove_io::auto_decompress_bytes(&z[..cut]).map(|c| c.into_owned()))?;
        check!(o.is_err(), "truncated-accepted", "compressed data cut to {cut} of {} bytes was accepted", z.len());
        std::fs::write(&q, &z[..cut]).unwrap();
        let o = lib("auto_reader", || {
            let mut o = vec![];
            jstprove_io::auto_reader(std::fs::File::open(&q)?)?.read_to_end(&mut o)?;
            Ok(o)
        })?;
        check!(o.is_err(), "truncated-accepted-file", "compressed file cut to {cut} of {} bytes was accepted", z.len());
        c.ev("truncated");
    }
    c.ev(if compress { "codec_compressed" } else { "codec_plain" });
    if data.len() < 4 {
        c.ev("codec_tiny");
    }
    c.seen(hash_bytes(&data) ^ compress as u64);
    c.sample = Some(json!({"len": data.len(), "stored": stored.len(), "compress": compress}));
    Ok(())
}

pub fn a07() -> Spec {
    Spec {
        id: "A07",
        level: "exploration",
        rule: "blobs (empty, 1..4 bytes, buffer-boundary sizes, up to hundreds of kB, look-alike prefixes) written in arbitrary pieces with flushes and read in arbitrary pieces through every writer/reader pair; distinct = distinct (data, compression)",
        assumptions: &["data stored uncompressed does not itself begin with the zstd magic"],
        require: &[("codec_compressed", 100), ("codec_plain", 100), ("codec_tiny", 20), ("truncated", 300)],
        families: vec![Family { name: "stream", quick: 900, thorough: 30_000, f: a07_stream }],
    }
}

// ---------------------------------------------------------------- A08 concurrent writers

/// history: N writers (distinct contents) and readers on one path; checked after the fact
fn a08_verdict(c: &mut Case, dir: &Path, results: &[(usize, bool)], contents: &[BundleCase]) -> R {
    let winners: Vec<usize> = results.iter().filter(|(_, ok)| *ok).map(|(i, _)| *i).collect();
    check!(winners.len() <= 1, "two-winners", "{} concurrent writers of the same bundle all reported success", winners.len());
    check!(winners.len() == 1, "no-winner", "none of {} concurrent writers succeeded", results.len());
    c.ev(&format!("winner_{}", winners[0]));
    if let Err(e) = compare_bundle(dir, &contents[winners[0]]) {
        return bad("winner-lost", format!("the bundle of the successful writer is not what is on disk: {}", e.why));
    }
    let names: Vec<String> = std::fs::read_dir(dir.parent().unwrap()).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    check!(names.len() == 1, "race-leftovers", "leftovers next to the bundle after the race: {names:?}");
    Ok(())
}

fn a08_threads(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = r.us(2, 5);
    let nr = r.us(1, 3);
    let contents: Vec<BundleCase> = (0..n)
        .map(|i| {
            let mut b = gen_bundle(&mut r, 120_000);
            b.circuit.extend_from_slice(&(i as u64).to_le_bytes());
            b.meta = Some(gen_meta(&mut r));
            b
        })
        .collect();
    let d = c.scratch();
    let dir = d.join("bundle");
    let barrier = std::sync::Barrier::new(n + nr);
    let done = std::sync::atomic::AtomicUsize::new(0);
    let seeds: Vec<u64> = (0..n + nr).map(|_| r.u64()).collect();
    let mut results = vec![];
    let mut reads: Vec<Result<(u64, u64, Option<usize>), Bad>> = vec![];
    std::thread::scope(|s| {
        let mut hs = vec![];
        let mut rs = vec![];
        for i in 0..n {
            let (b, dir, barrier, done, sd) = (&contents[i], &dir, &barrier, &done, seeds[i]);
            hs.push(s.spawn(move || {
                barrier.wait();
                let mut rr = Rng::new(sd);
                for _ in 0..rr.below(3) * rr.below(2000) {
                    std::hint::spin_loop();
                }
                let o = lib("write_bundle_with_vk", || write_case(dir, b));
                done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                (i, o)
            }));
        }
        for _ in 0..nr {
            let (dir, barrier, done, contents) = (&dir, &barrier, &done, &contents);
            rs.push(s.spawn(move || {
                barrier.wait();
                let (mut ok, mut err) = (0u64, 0u64);
                let mut seen = None;
                loop {
                    let last = done.load(std::sync::atomic::Ordering::SeqCst) == n;
                    let o: Result<BundleBlobs<Meta>, String> = match lib("read_bundle", || bundle::read_bundle(dir)) {
                        Ok(o) => o,
                        Err(b) => return Err(b),
                    };
                    match o {
                        Err(_) => err += 1,
                        Ok(g) => {
                            ok += 1;
                            let w = contents.iter().position(|b| g.circuit == b.circuit && g.witness_solver == b.ws && g.vk == b.vk && g.metadata == b.meta && same_version(&g.version, &b.version));
                            match w {
                                None => return Err(Bad { sig: "torn-read".into(), why: "a concurrent reader saw a bundle no writer wrote".into() }),
                                Some(w) => {
                                    if seen.is_some_and(|x| x != w) {
                                        return Err(Bad { sig: "changed-read".into(), why: "two reads saw bundles of different writers".into() });
                                    }
                                    seen = Some(w);
                                }
                            }
                        }
                    }
                    if last {
                        break;
                    }
                }
                Ok((ok, err, seen))
            }));
        }
        for h in hs {
            results.push(h.join().unwrap());
        }
        for h in rs {
            reads.push(h.join().unwrap());
        }
    });
    c.evals += 1;
    let mut flat = vec![];
    for (i, o) in results {
        flat.push((i, o?.is_ok()));
    }
    a08_verdict(c, &dir, &flat, &contents)?;
    let winner = flat.iter().find(|x| x.1).map(|x| x.0);
    for rd in reads {
        let (ok, err, seen) = rd?;
        check!(seen.is_none() || seen == winner, "phantom-read", "a reader saw the bundle of a writer that reported failure");
        c.evn("reads_ok", ok);
        c.evn("reads_before_complete", err);
    }
    c.seen_str(&format!("t{}|{n}|{winner:?}", c.idx));
    c.sample = Some(json!({"writers": n, "readers": nr, "winner": winner}));
    Ok(())
}

/// separate processes, every filesystem call preceded by a random pause
fn a08_processes(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = r.us(2, 4);
    let d = c.scratch();
    let root = d.join("root");
    std::fs::create_dir(&root).unwrap();
    let dir = root.join("bundle");
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let contents: Vec<BundleCase> = seeds.iter().map(|s| child_bundle(*s, false)).collect();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<_> = seeds
        .iter()
        .enumerate()
        .map(|(i, s)| {
            std::process::Command::new(&exe)
                .args(["--child", "bundle-write", &s.to_string(), "0", &dir.to_string_lossy()])
                .env("LD_PRELOAD", shim())
                .env("VF_ROOT", &root)
                .env("VF_MODE", "delay")
                .env("VF_SEED", s.to_string())
                .env("VF_LOG", d.join(&format!("ev{i}")))
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("spawn")
        })
        .collect();
    let mut torn = None;
    let mut flat = vec![];
    let mut open: Vec<usize> = (0..n).collect();
    while !open.is_empty() {
        let o: Result<BundleBlobs<Meta>, String> = lib("read_bundle", || bundle::read_bundle(&dir))?;
        if let Ok(g) = o {
            let w = contents.iter().position(|b| g.circuit == b.circuit && g.witness_solver == b.ws && g.vk == b.vk && g.metadata == b.meta);
            if w.is_none() {
                torn = Some(());
            }
            c.ev("reads_ok");
        } else {
            c.ev("reads_before_complete");
        }
        open.retain(|i| match kids[*i].try_wait().unwrap() {
            Some(st) => {
                flat.push((*i, st.code()));
                false
            }
            None => true,
        });
    }
    check!(torn.is_none(), "torn-read", "a concurrent reader saw a bundle no writer wrote");
    let mut f2 = vec![];
    for (i, code) in flat {
        match code {
            Some(0) => f2.push((i, true)),
            Some(10) => f2.push((i, false)),
            x => return bad("child-abnormal", format!("writer {i} ended with {x:?}")),
        }
    }
    a08_verdict(c, &dir, &f2, &contents)?;
    c.evals += 1;
    let order: Vec<usize> = f2.iter().map(|x| x.0).collect();
    c.seen_str(&format!("p{}|{order:?}", c.idx));
    c.ev("process_race");
    Ok(())
}

pub fn a08() -> Spec {
    Spec {
        id: "A08",
        level: "exploration",
        rule: "2-5 writers with distinct contents race for one bundle path while readers poll it (threads; and separate processes with a random pause injected before every filesystem call); the recorded results are checked against: exactly one writer succeeds, the disk holds exactly its bundle, readers see either an error or exactly that bundle; distinct = (race, completion order/winner)",
        assumptions: &["interleavings are those the scheduler and injected pauses produced"],
        require: &[("winner_0", 5), ("winner_1", 5), ("reads_ok", 50), ("reads_before_complete", 50), ("process_race", 20)],
        families: vec![
            Family { name: "threads", quick: 400, thorough: 12_000, f: a08_threads },
            Family { name: "processes", quick: 60, thorough: 1_500, f: a08_processes },
        ],
    }
}
