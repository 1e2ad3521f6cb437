# Sourced by run.sh and setup.sh: builds of the harness, offline. Sets $bin.
export CARGO_NET_OFFLINE=true
export ASAN_OPTIONS=abort_on_error=1:exitcode=97:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=64

# never trust time stamps of a copied tree: the library crates are always rebuilt
build() {
    export CARGO_TARGET_DIR="$here/harness/target"
    bin="$CARGO_TARGET_DIR/debug/harness"
    rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/protosocket* "$CARGO_TARGET_DIR"/debug/build/protosocket*
    if ! out=$(cargo build --offline --manifest-path "$here/harness/Cargo.toml" 2>&1); then
        echo "$out" | tail -40 >&2
        echo "build failed: no answer" >&2
        return 2
    fi
}

# the same with AddressSanitizer (nightly compiler)
build_asan() {
    local t=x86_64-unknown-linux-gnu
    export CARGO_TARGET_DIR="$here/harness/target/asan"
    bin="$CARGO_TARGET_DIR/$t/debug/harness"
    rm -rf "$CARGO_TARGET_DIR/$t"/debug/.fingerprint/protosocket* "$CARGO_TARGET_DIR/$t"/debug/build/protosocket*
    if ! out=$(RUSTFLAGS="-Zsanitizer=address --cfg asan" cargo +nightly build --offline --target $t --manifest-path "$here/harness/Cargo.toml" 2>&1); then
        echo "no build with AddressSanitizer, going on without" >&2
        return 2
    fi
}
