#!/usr/bin/env python3
"""Mutation campaign: which small source changes survive the repository's tests AND all monitors?

usage: mutate.py WORKER NWORKERS SEED OUT.jsonl [--files f1,f2] [--max N]
Works only in scratch copies under /tmp/mut<WORKER> (a copy of /repo and one of /verif's machinery)."""
import json, os, random, re, shutil, subprocess, sys, time
W, N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
FILES = None; MAX = 10**9; DRY = "--dry" in sys.argv
if "--files" in sys.argv: FILES = sys.argv[sys.argv.index("--files") + 1].split(",")
if "--max" in sys.argv: MAX = int(sys.argv[sys.argv.index("--max") + 1])
ROOT = f"/tmp/mut{W}"; REPO = f"{ROOT}/repo"; VER = f"{ROOT}/verif"
IO = ["rust/jstprove_io/src/" + f for f in ("lib.rs", "envelope.rs", "compress.rs", "bundle.rs")]
ON = ["rust/jstprove_onnx/src/" + f for f in ("parser.rs", "graph.rs", "shape_inference.rs", "quantizer.rs", "compat.rs", "layer_params.rs", "ops.rs")]
files = FILES or IO + ON
RULES = [
 (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
 (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]),
 (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\.max\(", [".min("]), (r"\.min\(", [".max("]), (r"\.abs\(\)", [""]), (r"\.ceil\(\)", [".floor()"]), (r"\.floor\(\)", [".ceil()"]),
 (r"unwrap_or\(0\)", ["unwrap_or(1)"]), (r"unwrap_or\(1\)", ["unwrap_or(0)"]), (r"unwrap_or\(1\.0\)", ["unwrap_or(0.0)"]),
 (r"\bcontinue;", [""]), (r"\bbreak;", [""]), (r" \+= ", [" -= "]), (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]),
 (r"\b1\.\.", ["0.."]), (r"\b0\.\.", ["1.."]), (r"\.all\(", [".any("]), (r"\.any\(", [".all("]),
 (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]"]), (r"\[2\]", ["[3]"]), (r"\[3\]", ["[2]"]), (r"\bif !", ["if "]), (r"\bif (?!let|!)", ["if !"]),
 (r"\b2\b(?!\.)", ["3"]), (r"\b1\b(?![.\d])", ["2"]), (r"\b0\b(?![.\dx])", ["1"]), (r"0\.0\b", ["1.0"]), (r"1\.0\b", ["2.0"]),
 (r"OpType::\w+ \| ", [""]), (r"\| OpType::\w+", [""]),
 (r"saturating_sub", ["saturating_add"]), (r"saturating_add", ["saturating_sub"]), (r"checked_add", ["checked_sub"]), (r"checked_mul", ["checked_add"]),
]
STMT = re.compile(r"^(\s*)([a-z_][\w.\[\]*]*(\.\w+)*\([^;]*\)\??;|[\w.\[\]]+ = [^;]+;|\*[\w.\[\]]+ [-+*]?= [^;]+;)\s*$")
def mutants():
    out = []
    for f in files:
        src = open(f"{REPO}/{f}").read()
        cut = src.find("#[cfg(test)]\nmod tests")
        body = src if cut < 0 else src[:cut]
        lines = body.split("\n")
        for i, l in enumerate(lines):
            t = l.strip()
            if not t or t.startswith(("//", "#", "use ", "pub fn", "fn ", "pub struct", "impl", "pub enum", "pub const", "mod ", "pub mod")): continue
            if t.startswith(('"', 'format!', 'bail!')) : continue
            code = l
            for pat, reps in RULES:
                for m in re.finditer(pat, code):
                    # not inside a string literal
                    if code[:m.start()].count('"') % 2: continue
                    for r in reps:
                        out.append((f, i, l, code[:m.start()] + r + code[m.end():]))
            if STMT.match(l) and not t.startswith(("return", "let")):
                out.append((f, i, l, ""))
            if re.match(r"^\s*(bail!|return Err)\(.*\);$", l): out.append((f, i, l, ""))
    return out
ORDER = {
 "rust/jstprove_io": ["A01", "A02", "A03", "A04", "A07", "A05", "A06", "A08", "A09"],
 "parser.rs": ["B01", "B12", "B03", "B05"], "graph.rs": ["B02", "B03", "B05", "B06", "B14", "B12"],
 "shape_inference.rs": ["B03", "B04", "B15", "B12", "B06", "B13"],
 "quantizer.rs": ["B05", "B06", "B07", "B08", "B03", "B12", "B14", "B13"],
 "compat.rs": ["B10", "B11", "B12"], "layer_params.rs": ["B09", "B12"], "ops.rs": ["B05", "B08", "B06"],
}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-03-27", CARGO_NET_OFFLINE="true", PROTOC="/usr/bin/protoc", CARGO_TARGET_DIR=f"{ROOT}/tt")
def setup():
    shutil.rmtree(ROOT, ignore_errors=True); os.makedirs(ROOT)
    subprocess.run(["git", "clone", "-q", "/repo", REPO], check=True)
    src = open(f"{REPO}/Cargo.toml").read()
    m = re.search(r"^members\s*=\s*\[(.*?)\]", src, re.M | re.S)
    open(f"{REPO}/Cargo.toml", "w").write(src[:m.start()] + 'members = ["rust/jstprove_io", "rust/jstprove_onnx"]' + src[m.end():])
    subprocess.run(["git", "clone", "-q", "/verif", VER], check=True)
    subprocess.run(["cp", "-a", "/verif/target", f"{VER}/target"], check=True)
    for d, _, fs in os.walk(VER):
        if "/target" in d or "/.git" in d: continue
        for f in fs:
            if f.endswith((".toml", ".sh", ".rs")):
                p = os.path.join(d, f); t = open(p).read()
                if "/repo" in t: open(p, "w").write(t.replace("/repo/", f"{REPO}/").replace("cd /repo ", f"cd {REPO} ").replace('"/repo"', f'"{REPO}"'))
def run(cmd, cwd, t, env=ENV):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return -1, "timeout"
def main():
    setup(); ms = mutants(); rnd = random.Random(SEED); rnd.shuffle(ms)
    ms = ms[W::N]
    print(len(ms), "mutants for this worker", flush=True)
    if DRY: return
    done = 0
    for f, i, old, new in ms:
        if done >= MAX: break
        p = f"{REPO}/{f}"; orig = open(f"{REPO}/{f}").read(); lines = orig.split("\n")
        assert lines[i] == old
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        pkg = "jstprove-io" if "jstprove_io" in f else "jstprove-onnx"
        t0 = time.time()
        rc, out = run(["cargo", "test", "--offline", "-q", "-p", pkg], REPO, 300)
        rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip())
        if rc != 0:
            rec["res"] = "nobuild" if "could not compile" in out else "tests"
        else:
            done += 1
            rec["res"] = "SURVIVED"
            key = "rust/jstprove_io" if "jstprove_io" in f else os.path.basename(f)
            for c in ORDER[key]:
                rc, out = run(["bash", "check.sh", c], VER, 600, dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                if rc == 1: rec["res"] = "killed:" + c; break
                if rc != 0: rec.setdefault("odd", []).append([c, rc, out[-300:]])
        rec["t"] = round(time.time() - t0)
        open(OUT, "a").write(json.dumps(rec) + "\n")
        open(p, "w").write(orig)
main()
