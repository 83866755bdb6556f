//! A09: reading hostile artifact bytes. Runs in a child process (an abort, stack overflow,
//! sanitizer report or resource-limit kill is observed from outside).
use crate::alloc::peak;
use crate::art::*;
use crate::report::{bad, guarded, install_panic_hook, Case, Family, Spec, R};
use crate::rng::Rng;
use jstprove_io::bundle;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashMap;
use std::io::Read;
use std::path::Path;

#[derive(Serialize, Deserialize, Debug)]
struct Rec {
    next: Option<Box<Rec>>,
}

const LIMIT: i64 = 192 << 20;

fn msgpack_soup(r: &mut Rng) -> Vec<u8> {
    // structurally plausible MessagePack with lying lengths
    let mut v = vec![];
    for _ in 0..1 + r.below(30) {
        match r.below(16) {
            0 => { v.push(0xdc); v.extend_from_slice(&(r.u64() as u16).to_be_bytes()); }
            1 => { v.push(0xdd); v.extend_from_slice(&(*r.pick(&[u32::MAX, 1 << 31, 1 << 24, 70_000])).to_be_bytes()); }
            2 => { v.push(0xdf); v.extend_from_slice(&(*r.pick(&[u32::MAX, 1 << 30, 5])).to_be_bytes()); }
            3 => { v.push(0xdb); v.extend_from_slice(&(*r.pick(&[u32::MAX, 1 << 28, 3])).to_be_bytes()); }
            4 => { v.push(0xc6); v.extend_from_slice(&(*r.pick(&[u32::MAX, 1 << 29, 2])).to_be_bytes()); }
            5 => { v.push(0xc9); v.extend_from_slice(&u32::MAX.to_be_bytes()); v.push(1); }
            6 => v.push(0x80 | r.below(16) as u8),
            7 => v.push(0x90 | r.below(16) as u8),
            8 => { let f = *r.pick(&["name", "ints", "small", "map", "opt", "n_bits", "metadata", "next", "kinds", "unit"]); v.push(0xa0 | f.len() as u8); v.extend_from_slice(f.as_bytes()); }
            9 => { v.push(0xcf); v.extend_from_slice(&r.u64().to_be_bytes()); }
            10 => { v.push(0xcb); v.extend_from_slice(&r.u64().to_be_bytes()); }
            11 => v.push(0xc0),
            12 => { let n = r.below(6); v.extend(r.bytes(n)); }
            13 => v.push(0xc1),
            14 => v.push(r.u64() as u8 & 0x7f),
            _ => { let n = r.below(32); v.push(0xa0 | n as u8); v.extend(r.bytes(n)); }
        }
    }
    v
}

fn header(flags: u32, len: u64, crc: u32) -> Vec<u8> {
    let mut v = b"JST\x01".to_vec();
    v.extend_from_slice(&flags.to_le_bytes());
    v.extend_from_slice(&len.to_le_bytes());
    v.extend_from_slice(&crc.to_le_bytes());
    v
}

pub fn gen(r: &mut Rng) -> Vec<u8> {
    let base = match r.below(7) {
        0 => { let n = r.below(120); r.bytes(n) }
        1 | 2 => msgpack_soup(r),
        3 => {
            // deep nesting
            let d = *r.pick(&[10usize, 500, 1023, 1024, 1025, 5000, 100_000]);
            let mut v = vec![];
            for _ in 0..d {
                match r.below(2) {
                    0 => v.extend_from_slice(&[0x81, 0xa4, b'n', b'e', b'x', b't']),
                    _ => v.push(0x91),
                }
            }
            v.push(0xc0);
            v
        }
        4 => { let sz = *r.pick(&[3usize, 50, 500]); rmp_serde::to_vec_named(&gen_art(r, sz, 1)).unwrap() }
        5 => rmp_serde::to_vec_named(&gen_meta(r)).unwrap(),
        _ => {
            // {"metadata": {...}} with a lying length inside
            let mut v = vec![0x81, 0xa8];
            v.extend_from_slice(b"metadata");
            v.extend(msgpack_soup(r));
            v
        }
    };
    let mut out = match r.below(6) {
        0 => base,
        1 => envelope_ref(&base, false),
        2 => envelope_ref(&zstd_ref(r, &base), true),
        3 => zstd_ref(r, &base),
        4 => {
            let len = *r.pick(&[0u64, 1, u64::MAX, 1 << 63, 1 << 40, i64::MAX as u64, base.len() as u64, base.len() as u64 + 1, u64::MAX - 19, u64::MAX - 20]);
            let crc = if r.bool() { crc32c_ref(&base) } else { r.u64() as u32 };
            let mut v = header(*r.pick(&[0u32, 1, 2, 3, u32::MAX]), len, crc);
            v.extend_from_slice(&base);
            v
        }
        _ => {
            // valid frame whose compressed content is damaged, checksum recomputed
            let mut z = zstd_ref(r, &base);
            for _ in 0..1 + r.below(4) {
                let k = r.below(z.len());
                z[k] = r.u64() as u8;
            }
            envelope_ref(&z, true)
        }
    };
    for _ in 0..r.below(4) {
        if out.is_empty() {
            break;
        }
        match r.below(4) {
            0 => { let k = r.below(out.len()); out[k] ^= 1 << r.below(8); }
            1 => { let k = r.below(out.len()); out.truncate(k); }
            2 => { let k = r.below(out.len()); let n = r.below(8); let ins = r.bytes(n); out.splice(k..k, ins); }
            _ => { let n = r.below(30); let b = r.bytes(n); out.extend(b); }
        }
    }
    out
}

fn drive(data: &[u8], dir: &Path) -> u64 {
    // returns the number of successful decodes
    let mut ok = 0;
    let mut t = |b: bool| ok += b as u64;
    t(jstprove_io::deserialize_from_bytes::<Art>(data).is_ok());
    t(jstprove_io::deserialize_from_bytes::<Meta>(data).is_ok());
    t(jstprove_io::deserialize_from_bytes::<Vec<u64>>(data).is_ok());
    t(jstprove_io::deserialize_from_bytes::<HashMap<String, Vec<u8>>>(data).is_ok());
    t(jstprove_io::deserialize_from_bytes::<Rec>(data).is_ok());
    t(jstprove_io::deserialize_from_bytes::<bundle::BundleManifest<Meta>>(data).is_ok());
    t(jstprove_io::deserialize_from_bytes::<String>(data).is_ok());
    t(jstprove_io::auto_decompress_bytes(data).is_ok());
    t(jstprove_io::decompress_bytes(data).is_ok());
    t(jstprove_io::read_msgpack_reader::<Art>(data).is_ok());
    t(jstprove_io::read_msgpack_reader::<Rec>(data).is_ok());
    t(jstprove_io::envelope::parse_header(data).is_ok());
    let p = dir.join("manifest.msgpack");
    std::fs::write(&p, data).unwrap();
    std::fs::write(dir.join("circuit.bin"), data).unwrap();
    std::fs::write(dir.join("witness_solver.bin"), data).unwrap();
    std::fs::write(dir.join("vk.bin"), data).unwrap();
    t(jstprove_io::deserialize_from_file::<Art>(&p).is_ok());
    t(jstprove_io::deserialize_from_file::<Meta>(&p).is_ok());
    t(jstprove_io::deserialize_from_file::<Vec<u64>>(&p).is_ok());
    t(jstprove_io::deserialize_from_file::<Rec>(&p).is_ok());
    t(jstprove_io::deserialize_from_file::<String>(&p).is_ok());
    t(bundle::read_bundle::<Meta>(dir).is_ok());
    t(bundle::read_bundle_metadata::<Meta>(dir).is_ok());
    t(bundle::read_circuit_blob(dir).is_ok());
    t(bundle::read_vk_only(dir).is_ok());
    t(bundle::read_bundle::<Meta>(&dir.join("absent")).is_ok());
    t(jstprove_io::deserialize_from_file::<Art>(dir).is_ok());
    let mut o = vec![];
    t(jstprove_io::auto_reader(std::fs::File::open(&p).unwrap()).is_ok_and(|mut rd| rd.read_to_end(&mut o).is_ok()));
    ok
}

/// child: hostile-io <seed> <count> <dir> <progress file>
pub fn child(args: &[String]) -> Option<i32> {
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let ["hostile-io", seed, count, dir, progress] = a.as_slice() else { return None };
    install_panic_hook();
    unsafe {
        let l = libc::rlimit { rlim_cur: 240, rlim_max: 240 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
    let seed: u64 = seed.parse().unwrap();
    let mut total_ok = 0;
    for i in 0..count.parse::<u64>().unwrap() {
        let mut r = Rng::new(crate::rng::mix(seed ^ i.wrapping_mul(0x9E37)));
        let data = gen(&mut r);
        std::fs::write(progress, format!("{i}\n{}", hexs(&data))).unwrap();
        let (o, pk) = peak(|| guarded(|| drive(&data, Path::new(dir))));
        match o {
            Err(p) => {
                eprintln!("PANIC {p}");
                return Some(20);
            }
            Ok(n) => total_ok += n,
        }
        if pk > LIMIT {
            eprintln!("MEMORY peak {pk} bytes for {} input bytes", data.len());
            return Some(21);
        }
    }
    println!("{total_ok}");
    Some(0)
}

fn batch(c: &mut Case) -> R {
    let d = c.scratch();
    let dir = d.join("b");
    std::fs::create_dir(&dir).unwrap();
    let prog = d.join("progress");
    let asan = std::env::var_os("VMON_ASAN_MON");
    let use_asan = asan.is_some() && c.family == "asan";
    let exe = if use_asan { std::path::PathBuf::from(asan.unwrap()) } else { std::env::current_exe().unwrap() };
    let n = if use_asan { 150 } else { 600 };
    let mut cmd = std::process::Command::new(exe);
    cmd.args(["--child", "hostile-io", &c.seed.to_string(), &n.to_string(), &dir.to_string_lossy(), &prog.to_string_lossy()]);
    if use_asan {
        cmd.env("ASAN_OPTIONS", "halt_on_error=1:abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=0:max_allocation_size_mb=600");
    }
    let out = cmd.output().expect("spawn");
    let p = std::fs::read_to_string(&prog).unwrap_or_default();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let head: String = err.lines().take(25).collect::<Vec<_>>().join("\n");
    c.note(format!("last input: {p}"));
    c.evals += n;
    match out.status.code() {
        Some(0) => {}
        Some(20) => return bad("hostile-panic", format!("reading hostile bytes panicked: {head}; input {p}")),
        Some(21) => return bad("hostile-memory", format!("allocation driven by a length field: {head}; input {p}")),
        Some(77) => return bad("hostile-asan", format!("AddressSanitizer: {head}; input {p}")),
        Some(x) => return bad("hostile-exit", format!("child ended with {x}: {head}; input {p}")),
        None => {
            use std::os::unix::process::ExitStatusExt;
            let s = out.status.signal().unwrap_or(0);
            if s == libc::SIGKILL || s == libc::SIGTERM {
                panic!("child killed from outside (signal {s})");
            }
            return bad(format!("hostile-signal-{s}"), format!("reading hostile bytes ended the process with signal {s}: {head}; input {p}"));
        }
    }
    let oks: u64 = String::from_utf8_lossy(&out.stdout).trim().parse().unwrap_or(0);
    c.evn("hostile_inputs", n);
    c.evn(if use_asan { "inputs_under_asan" } else { "inputs_counted_alloc" }, n);
    c.evn("accepted_decodes", oks);
    // distinct inputs of the batch
    for i in 0..n {
        let mut r = Rng::new(crate::rng::mix(c.seed ^ i.wrapping_mul(0x9E37)));
        c.seen(crate::rng::hash_bytes(&gen(&mut r)));
    }
    c.sample = Some(json!({"inputs": n, "accepted_decodes": oks, "asan": use_asan}));
    Ok(())
}

pub fn a09() -> Spec {
    Spec {
        id: "A09",
        level: "exploration",
        rule: "hostile byte strings (lying MessagePack/frame/zstd lengths, deep nesting, damaged compressed streams with recomputed checksums, truncations, splices, random bytes) pushed through every reader for several target types in child processes, once with a counting allocator and once with the Rust code and the bundled C zstd built under AddressSanitizer; distinct = distinct input bytes",
        assumptions: &["decompressed content of the generated inputs stays below 8 MB, so 192 MiB of peak Rust heap can only come from a length field", "target types do not themselves allocate by a length"],
        require: &[("inputs_counted_alloc", 4000), ("inputs_under_asan", 1000), ("accepted_decodes", 100)],
        families: vec![
            Family { name: "counted", quick: 24, thorough: 800, f: batch },
            Family { name: "asan", quick: 16, thorough: 600, f: batch },
        ],
    }
}
