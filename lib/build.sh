# Sourced by check.sh. Builds into $VERIF/target (ignored by git), from /repo's current tree.
TGT="$VERIF/target"
SHIM_SO="$TGT/fault.so"
MON="$TGT/debug/mon"

# Cargo decides by mtime; checkouts can move mtimes backwards. Drop the path crates'
# artifacts whenever the content of their sources differs from the last build.
fresh_sources() {
    local h
    h="$(cd /repo && find rust/jstprove_io rust/jstprove_onnx -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.proto' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    if [ "$(cat "$TGT/.src-stamp" 2>/dev/null)" != "$h" ]; then
        rm -rf "$TGT"/debug/.fingerprint/jstprove-* "$TGT"/debug/.fingerprint/vmon-* \
               "$TGT"/asan/x86_64-unknown-linux-gnu/debug/.fingerprint/jstprove-* "$TGT"/asan/x86_64-unknown-linux-gnu/debug/.fingerprint/vmon-*
        echo "$h" > "$TGT/.src-stamp"
    fi
}

build_harness() {
    mkdir -p "$TGT"
    exec 9>"$TGT/.lock"; flock 9
    gcc -O1 -shared -fPIC -o "$SHIM_SO.tmp.$$" "$VERIF/shim/fault.c" -ldl && mv "$SHIM_SO.tmp.$$" "$SHIM_SO" || return 1
    fresh_sources
    (cd "$VERIF/harness" && CARGO_TARGET_DIR="$TGT" cargo build --offline --locked --bin mon 2>"$TGT/build.log") || { tail -40 "$TGT/build.log"; return 1; }
    exec 9>&-
}

# The same monitors with the Rust code and the bundled C code (zstd) under AddressSanitizer.
MON_ASAN="$TGT/asan/x86_64-unknown-linux-gnu/debug/mon"
build_asan() {
    exec 9>"$TGT/.lock"; flock 9
    (cd "$VERIF/harness" && CARGO_TARGET_DIR="$TGT/asan" RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" \
        CC_x86_64_unknown_linux_gnu=clang CFLAGS_x86_64_unknown_linux_gnu="-fsanitize=address -fno-omit-frame-pointer" \
        cargo build --offline --locked --target x86_64-unknown-linux-gnu --bin mon 2>"$TGT/build-asan.log") || { tail -40 "$TGT/build-asan.log"; return 1; }
    exec 9>&-
    export VMON_ASAN_MON="$MON_ASAN"
}

# The prover, compiler and circuits crates with stand-ins for the external crates missing offline.
PROVE_WS="$TGT/ws"; PROVE_TGT="$TGT/prove"; CMON="$PROVE_TGT/debug/cmon"
build_prove() {
    mkdir -p "$TGT"
    exec 9>"$TGT/.lock"; flock 9
    python3 "$VERIF/prover/mkws.py" "$PROVE_WS" /repo || return 1
    local h
    h="$(cd /repo && find Cargo.toml rust prover compiler -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.proto' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    if [ "$(cat "$PROVE_TGT/.src-stamp" 2>/dev/null)" != "$h" ]; then
        mkdir -p "$PROVE_TGT"
        for m in $(cd "$PROVE_WS" && cargo metadata --offline --no-deps --format-version 1 2>/dev/null | python3 -c 'import json,sys; print(*[p["name"] for p in json.load(sys.stdin)["packages"]])'); do
            rm -rf "$PROVE_TGT"/debug/.fingerprint/"$m"-*
        done
        echo "$h" > "$PROVE_TGT/.src-stamp"
    fi
    (cd "$PROVE_WS" && CARGO_TARGET_DIR="$PROVE_TGT" cargo build --offline -p vprove --bin cmon 2>"$TGT/build-prove.log") || { grep -E '^error' -A8 "$TGT/build-prove.log" | head -60; return 1; }
    exec 9>&-
}
