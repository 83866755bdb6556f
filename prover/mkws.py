#!/usr/bin/env python3
"""Generate a Cargo workspace in OUT in which the prover, compiler and circuits crates of /repo build
offline. Sources are /repo's own (symlinks); manifests are /repo's with the external crates that are
missing from the offline cache replaced by the stand-ins in shims/ (see shims/README.md).

usage: mkws.py OUT [REPO]"""
import os, re, shutil, sys
OUT, REPO = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SH = HERE + "/shims"

def put(path, text):
    path = f"{OUT}/{path}"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or os.path.islink(path) or open(path).read() != text:
        if os.path.islink(path): os.unlink(path)
        open(path, "w").write(text)
def link(path, target):
    path = f"{OUT}/{path}"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        if os.readlink(path) == target: return
        os.unlink(path)
    elif os.path.isdir(path): shutil.rmtree(path)
    os.symlink(target, path)
def read(p): return open(f"{REPO}/{p}").read()
def drop_deps(t, names):
    for n in names:
        t = re.sub(rf'(?m)^{re.escape(n)}(\.workspace)? *=.*\n', '', t)
    return t
def drop_sections(t, heads):
    out, skip = [], False
    for l in t.splitlines(True):
        if l.startswith('['): skip = any(l.startswith(h) for h in heads)
        if not skip: out.append(l)
    return ''.join(out)

# --- root ---
root = read("Cargo.toml")
deps = root[root.index("[workspace.dependencies]"):root.index("[profile.release]")]
shimmed = [d for d in sorted(os.listdir(SH)) if os.path.exists(f"{SH}/{d}/Cargo.toml")]
for n in shimmed:
    ver = ', features = ["sha3","keccak"]' if n == "tiny-keccak" else ', features = ["with-serde"]' if n == "rmpv" else ''
    new = f'{n} = {{ path = "{SH}/{n}"{ver} }}'
    deps, k = re.subn(rf'(?m)^{re.escape(n)} = .*$', lambda m: new, deps)
    if not k: deps += new + "\n"
deps = re.sub(r'(?m)^criterion = .*$', 'criterion = "0.8"', deps)
deps = re.sub(r'(?m)^env_logger = .*$', 'env_logger = { version = "0.11.3", default-features = false }', deps)
deps = re.sub(r'(?m)^tokio = .*$', 'tokio = { version = "1", features = ["rt-multi-thread", "macros", "net", "sync", "time"] }', deps)
deps = re.sub(r'(?m)^console = .*$', 'console = "0.16"', deps)
for n in ["axum", "reqwest", "shared_memory", "openssl", "peakmem-alloc", "big-int", "ark-bls12-381", "ark-bn254", "ark-ec", "ark-ff", "ark-serialize", "csv"]:
    deps = re.sub(rf'(?m)^{re.escape(n)} = .*\n', '', deps)
pkg = root[root.index("[workspace.package]"):root.index("[workspace.dependencies]")]
put("Cargo.toml", '[workspace]\nresolver = "2"\nmembers = ["vprove"]\n\n' + pkg + deps + '''
[profile.dev]
opt-level = 2
debug = 1
incremental = false
debug-assertions = true
overflow-checks = false

[profile.dev.package.vprove]
overflow-checks = true
''')
# --- prover: as is ---
link("prover", f"{REPO}/prover")
# --- compiler, without the zkcuda back end (needs axum, reqwest, shared_memory) ---
m = drop_sections(read("compiler/expander_compiler/Cargo.toml"), ["[[bin]]"])
put("compiler/expander_compiler/Cargo.toml", drop_deps(m, ["axum", "reqwest", "shared_memory", "chrono", "tokio", "clap"]))
link("compiler/expander_compiler/macros", f"{REPO}/compiler/expander_compiler/macros")
for e in sorted(os.listdir(f"{REPO}/compiler/expander_compiler/src")):
    if e not in ("lib.rs", "zkcuda"): link(f"compiler/expander_compiler/src/{e}", f"{REPO}/compiler/expander_compiler/src/{e}")
put("compiler/expander_compiler/src/lib.rs", re.sub(r'(?m)^pub mod zkcuda;\n', '', read("compiler/expander_compiler/src/lib.rs")))
# --- circuit-std-rs, without the BLS12-381 and SHA-256 gadgets (need arkworks, big-int) ---
m = drop_sections(read("compiler/circuit-std-rs/Cargo.toml"), ["[dev-dependencies]"])
put("compiler/circuit-std-rs/Cargo.toml", drop_deps(m, ["ark-bls12-381", "ark-ec", "ark-ff", "big-int", "num-bigint"]))
for e in sorted(os.listdir(f"{REPO}/compiler/circuit-std-rs/src")):
    if e not in ("lib.rs", "utils.rs", "gnark", "sha256", "sha256.rs", "tests", "tests.rs"): link(f"compiler/circuit-std-rs/src/{e}", f"{REPO}/compiler/circuit-std-rs/src/{e}")
l = read("compiler/circuit-std-rs/src/lib.rs")
l = re.sub(r'(?m)^pub mod (gnark|sha256|utils);\n', '', l)
put("compiler/circuit-std-rs/src/lib.rs", re.sub(r'(?m)^#\[cfg\(test\)\]\nmod tests;\n', '', l))
# --- circuits ---
m = drop_sections(read("rust/jstprove_circuits/Cargo.toml"), ["[[bench]]"])
m = drop_deps(m, ["openssl", "peakmem-alloc", "jstprove-remainder", "peak-mem", "remainder"])
for n in ["serde_bytes", "num-bigint"]:
    m = re.sub(rf'(?m)^{n} = .*$', f'{n} = {{ path = "{SH}/{n}" }}', m)
m = re.sub(r'(?m)^criterion = .*$', 'criterion = "0.8"', m)
put("rust/jstprove_circuits/Cargo.toml", m)
for e in ("src", "bin", "tests"):
    link(f"rust/jstprove_circuits/{e}", f"{REPO}/rust/jstprove_circuits/{e}")
link("rust/jstprove_io", f"{REPO}/rust/jstprove_io")
link("rust/jstprove_onnx", f"{REPO}/rust/jstprove_onnx")
# --- the monitors ---
link("vmodel", os.path.normpath(f"{HERE}/../harness/model"))
link("vprove/src", f"{HERE}/src")
link("vprove/Cargo.toml", f"{HERE}/vprove.toml")
if os.path.exists(f"{HERE}/Cargo.lock"): shutil.copy(f"{HERE}/Cargo.lock", f"{OUT}/Cargo.lock")
