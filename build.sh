#!/bin/bash
# Builds the simulator, and the code under test from /repo's working tree.
# usage: bash build.sh        (offline; idempotent; works from scratch)
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUST_BACKTRACE=0
unset RUSTDOCFLAGS CARGO_TARGET_DIR
export RUSTFLAGS=-Awarnings
R=${REPO:-/repo}
B=$V/build
mkdir -p "$B/tmp" "$V/evidence" "$V/out" || exit 2
exec 9>"$B/.lock"
flock 9 || exit 2

run() { # name, command...
    local log=$B/$1.log; shift
    if ! "$@" >"$log" 2>&1; then
        echo "build failed: $*" >&2
        tail -20 "$log" >&2
        exit 2
    fi
}

# cargo decides by time stamps whether to compile again; decide by content
sum=$(cd "$R" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
psum=$(cd "$V" && find sim probe approve -name target -prune -o -type f -print0 2>/dev/null | sort -z | xargs -0 -r sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$B/sum" 2>/dev/null)" != "$sum $psum" ]; then
    rm -f "$B/sum"
    cd "$R" || exit 2
    for p in sudo_pair sudo_plugin sudo_plugin-sys; do
        cargo clean --offline -p $p --target-dir "$B/target" >/dev/null 2>&1
        cargo clean --offline --release -p $p --target-dir "$B/target" >/dev/null 2>&1
    done
    run plugin-debug cargo build --offline --locked -p sudo_pair --target-dir "$B/target"
    run plugin-release cargo build --offline --locked --release -p sudo_pair --target-dir "$B/target"
    cp "$B/target/debug/libsudo_pair.so" "$B/plugin-debug.so" || exit 2
    cp "$B/target/release/libsudo_pair.so" "$B/plugin-release.so" || exit 2
    cd "$V/sim" || exit 2
    run sim cargo build --offline --release --target-dir "$B/sim"
    if [ -d "$V/probe" ]; then
        cd "$V/probe" || exit 2
        for p in sudo_plugin sudo_plugin-sys probe; do
            cargo clean --offline -p $p --target-dir "$B/probe" >/dev/null 2>&1
            cargo clean --offline --release -p $p --target-dir "$B/probe" >/dev/null 2>&1
        done
        rm -f "$B"/probe-*.so
        # the dump (C27) names every field of the framework's types; without it the probes of C18-C21 need little
        for full in "" --no-default-features; do
            cargo build --offline $full --target-dir "$B/probe" >"$B/probe-debug.log" 2>&1 &&
            cargo build --offline --release $full --target-dir "$B/probe" >"$B/probe-release.log" 2>&1 &&
            cp "$B/probe/debug/libprobe.so" "$B/probe-debug.so" && cp "$B/probe/release/libprobe.so" "$B/probe-release.so" && break
            echo "probe${full:+ ($full)} does not build:" >&2
            tail -40 "$B/probe-debug.log" >&2
        done
    fi
    if [ -x "$V/approve/build.sh" ]; then
        run approve "$V/approve/build.sh" "$B"
    fi
    echo "$sum $psum" >"$B/sum"
fi
exit 0
