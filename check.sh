#!/bin/bash
# check.sh <property>      decide a property on the current working tree of /repo
# check.sh replay <file>   run the case of a replay file again
# check.sh setup           build everything
#
# VERIF_SEED and VERIF_TIER (quick, thorough) are honoured.
set -u
cd "$(dirname "$0")" || exit 2
export VP_ROOT="$PWD"
export VP_REPO="${VP_REPO:-/repo}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
B="$VP_ROOT/build"
mkdir -p "$B"

fail() { echo "ERROR $*" >&2; exit 2; }

# The sources that the builds depend on, so that no time stamp is able to hide a change.
state() { (cd "$VP_REPO" && find src Cargo.toml Cargo.lock README.md -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; cd "$VP_ROOT" && find harness/src digest/src digest/wasm digest/shim.c harness/Cargo.* digest/Cargo.* -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum; }

# build <name of the target directory> <crate> <arguments of cargo build>
build() {
    local dir="$B/$1" crate="$VP_ROOT/$2" log="$B/$1.log" now
    shift 2
    mkdir -p "$dir"
    now="$(state)"
    if [ "$(cat "$dir/state" 2>/dev/null)" != "$now" ]; then
        rm -f "$dir/state"
        (cd "$crate" && cargo clean -q --offline -p lunify --target-dir "$dir" && cargo clean -q --offline -p lunify --target-dir "$dir" --release) >/dev/null 2>&1
    fi
    (cd "$crate" && cargo build -q --offline --locked --target-dir "$dir" "$@") >"$log" 2>&1 || { tail -40 "$log" >&2; fail "can't build $crate"; }
    BUILT="$dir $now"
}

built() { echo "${BUILT#* }" >"${BUILT%% *}/state"; }

lua() { bash lua/build.sh >"$B/lua.log" 2>&1 || { tail -20 "$B/lua.log" >&2; fail "can't build the Lua runtimes"; }; }

harness() { build harness harness; built; }

digest() {
    build digest digest
    (cd digest && cargo clean -q --offline -p lunify --target-dir "$B/digest" --profile abort >/dev/null 2>&1)
    (cd digest && cargo build -q --offline --locked --target-dir "$B/digest" --release && cargo build -q --offline --locked --target-dir "$B/digest" --profile abort) >>"$B/digest.log" 2>&1 || { tail -40 "$B/digest.log" >&2; fail "can't build digest"; }
    built
    build digest-debug digest --features debug
    built
    build digest-features digest --features serde,integration --release
    built
}

shim() { gcc -shared -fPIC -O1 -o "$B/shim.so" digest/shim.c -ldl >"$B/shim.log" 2>&1 || { tail -20 "$B/shim.log" >&2; fail "can't build the shim"; }; }

sanitized() {
    # The sanitizers also have to watch the standard library.
    local s dir now pids=()
    now="$(state)"
    for s in address thread; do
        (
            dir="$B/digest-$s"
            mkdir -p "$dir"
            if [ "$(cat "$dir/state" 2>/dev/null)" != "$now" ]; then
                rm -f "$dir/state"
                (cd digest && cargo clean -q --offline -p lunify --target x86_64-unknown-linux-gnu --release --target-dir "$dir") >/dev/null 2>&1
            fi
            cd digest && RUSTFLAGS="-Zsanitizer=$s" cargo +nightly build -q --offline --locked --release -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir "$dir" >"$B/digest-$s.log" 2>&1 || exit 1
            echo "$now" >"$dir/state"
        ) &
        pids+=($!)
    done
    for s in "${pids[@]}"; do wait "$s" || { tail -n 30 "$B"/digest-address.log "$B"/digest-thread.log >&2; fail "can't build with sanitizers"; }; done
}

interpreted() {
    # Miri needs its own standard library for each host.
    local t pids=() now
    now="$(state)"
    printf '' >"$B/empty"
    for t in x86_64-unknown-linux-gnu i686-unknown-linux-gnu s390x-unknown-linux-gnu; do
        (
            export XDG_CACHE_HOME="$B/miri/$t"
            dir="$B/digest-miri-$t"
            mkdir -p "$XDG_CACHE_HOME" "$dir"
            if [ "$(cat "$dir/state" 2>/dev/null)" != "$now" ]; then
                rm -f "$dir/state"
                (cd digest && cargo clean -q --offline -p lunify --target "$t" --target-dir "$dir") >/dev/null 2>&1
            fi
            cd digest && MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check" cargo +nightly miri run -q --offline --locked --target "$t" --target-dir "$dir" -- "$B/empty" "$B/empty-$t" >"$B/miri-$t.log" 2>&1 || exit 1
            echo "$now" >"$dir/state"
        ) &
        pids+=($!)
    done
    for t in "${pids[@]}"; do wait "$t" || { tail -n 30 "$B"/miri-*.log >&2; fail "can't prepare Miri"; }; done
}

wasm() {
    # A host with 32 bit pointers at full speed. The standard library has to be built from its sources, which come with
    # their dependencies, so that the crate under test can't have others.
    local dir="$B/wasm" now vendor
    now="$(state)"
    vendor="$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library/vendor"
    mkdir -p "$dir/lunify"
    cat >"$dir/lunify/Cargo.toml" <<EOF
[package]
name = "lunify"
version = "1.1.0"
edition = "2021"
[lib]
path = "$VP_REPO/src/lib.rs"
[features]
debug = []
serde = []
integration = []
EOF
    cat >"$dir/Cargo.toml" <<EOF
[package]
name = "digest-wasm"
version = "0.1.0"
edition = "2021"
[lib]
path = "$VP_ROOT/digest/wasm/lib.rs"
crate-type = ["cdylib"]
[dependencies]
lunify = { path = "lunify" }
[workspace]
[profile.release]
overflow-checks = true
debug-assertions = true
incremental = false
EOF
    if [ "$(cat "$dir/state" 2>/dev/null)" != "$now" ]; then
        rm -f "$dir/state"
        (cd "$dir" && cargo clean -q --offline -p lunify --release --target wasm32-unknown-unknown --target-dir "$dir/target") >/dev/null 2>&1
    fi
    (cd "$dir" && RUSTFLAGS="-Clink-arg=-zstack-size=16777216" cargo +nightly build -q --offline --release -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown --target-dir "$dir/target" \
        --config 'source.crates-io.replace-with="vendored"' --config "source.vendored.directory=\"$vendor\"") >"$B/wasm.log" 2>&1 || return 1
    echo "$now" >"$dir/state"
}

prepare() {
    exec 9>"$B/lock"
    flock 9
    lua
    harness
    case "$1" in
        C20) digest; shim ;;
        C21)
            wasm &
            local wasm=$!
            interpreted
            sanitized
            wait "$wasm" || { tail -n 30 "$B/wasm.log" >&2; fail "can't build for wasm32"; }
            ;;
    esac
    flock -u 9
    exec 9>&-
}

case "${1:-}" in
    setup)
        prepare none
        ;;
    replay)
        [ -f "${2:-}" ] || fail "no such file: ${2:-}"
        prepare "$(grep -o '"property": *"[^"]*"' "$2" | head -1 | grep -o 'C[0-9]*')"
        exec "$B/harness/debug/vpcheck" replay "$2"
        ;;
    C[0-9][0-9])
        prepare "$1"
        exec "$B/harness/debug/vpcheck" run "$1"
        ;;
    *)
        fail "usage: check.sh <property> | replay <file> | setup"
        ;;
esac
