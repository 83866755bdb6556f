#!/usr/bin/env python3
"""Turn tools/seeds/<id>.py style definitions into /verif/seeded/<id>/ and confirm them.

usage: mkseed.py ID...   (definitions in seeds.py: SEEDS[id] = dict(property, needs, breaks, edits=[(file, old, new)], main=rust source))
Works in a scratch copy of /repo; never touches /repo."""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS, DEMO_OVERRIDES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrepo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-03-27", CARGO_NET_OFFLINE="true", PROTOC="/usr/bin/protoc", CARGO_TARGET_DIR="/tmp/seedtgt")
def sh(*a, **k): return subprocess.run(a, **k)
def fresh():
    if not os.path.isdir(W):
        sh("git", "clone", "-q", "/repo", W, check=True)
    sh("git", "-C", W, "fetch", "-q", "origin", check=True)
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    sh("git", "-C", W, "checkout", "-q", "-f", head, check=True)
    sh("git", "-C", W, "clean", "-fdq", check=True)
def demo(i):
    r = sh("bash", f"{V}/seeded/{i}/demo.sh", cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout[-600:]
def main():
    for i in sys.argv[1:]:
        s = SEEDS[i]
        fresh()
        d = f"{V}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        for f, old, new in s["edits"]:
            p = f"{W}/{f}"
            t = open(p).read()
            # only before the test module
            cut = t.find("#[cfg(test)]\nmod tests")
            head = t if cut < 0 else t[:cut]
            n = head.count(old)
            if n != 1:
                print(f"{i}: edit matches {n} times in {f}: {old[:60]!r}"); sys.exit(1)
            t = head.replace(old, new) + ("" if cut < 0 else t[cut:])
            open(p, "w").write(t)
        diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/main.rs", "w").write(s["main"])
        shutil.copy(f"{V}/tools/seedlib/demo.sh", f"{d}/demo.sh")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        src = open(f"{W}/Cargo.toml").read()
        m = re.search(r"^members\s*=\s*\[(.*?)\]", src, re.M | re.S)
        open(f"{W}/Cargo.toml", "w").write(src[:m.start()] + 'members = ["rust/jstprove_io", "rust/jstprove_onnx", "prover/utils", "prover/serdes_derive", "compiler/expander_compiler/macros"]' + src[m.end():])
        t = sh("cargo", "test", "--offline", "-q", "--workspace", cwd=W, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rc, out = demo(i)
        sh("git", "-C", W, "checkout", "-q", "--", ".")
        rc0, out0 = demo(i)
        ok = t.returncode == 0 and rc != 0 and rc != 9 and rc0 == 0
        print(f"{i}: tests {'pass' if t.returncode == 0 else 'FAIL'}, demo patched={rc} clean={rc0} -> {'OK' if ok else 'REJECT'}", flush=True)
        if not ok:
            print(t.stdout[-1500:] if t.returncode else "", out, out0)
main()
