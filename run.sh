#!/bin/bash
# ./run.sh <ID> [--replay FILE] [--only SUBTEST] [--scale X]
# Rebuilds what the check needs from /repo's working tree, then runs it.
cd "$(dirname "$0")" || exit 2
here=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target"
export VERIF_ROOT="$here" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
id=$1
[ -n "$id" ] || { echo "usage: run.sh ID [--replay FILE]"; exit 2; }
log="$here/target/build-$id.log"
mkdir -p "$here/target"

build() { "$@" >"$log" 2>&1 || { echo "ERROR building for $id:"; tail -40 "$log"; exit 2; }; }

bin="$here/target/debug/harness"
export RUSTFLAGS="--cfg apiformes_verif"
case $id in
C*)
    build cargo build --offline --locked --manifest-path harness/Cargo.toml --features "$id"
    ;;
B16)
    # the broker as its default features build it
    cmd=(cargo build --offline --locked --manifest-path harness/Cargo.toml --features)
    if ! CARGO_TARGET_DIR="$here/target/plain" "${cmd[@]}" "broker,$id" >"$log" 2>&1; then
        # the library does not compile without the feature although it does with it
        if grep -q 'could not compile `apiformes-server-lib`' "$log" && "${cmd[@]}" "noise,$id" >"$log.noise" 2>&1; then
            mkdir -p replays; cp "$log" "replays/B16-build.log"
            tail -20 "$log"
            echo "VIOLATION property=B16 replay=$here/replays/B16-build.log"
            exit 1
        fi
        echo "ERROR building for $id:"; tail -40 "$log"; exit 2
    fi
    bin="$here/target/plain/debug/harness"
    ;;
*)
    build cargo build --offline --locked --manifest-path harness/Cargo.toml --features "noise,$id"
    ;;
esac
unset RUSTFLAGS
case $id in
M01) CARGO_TARGET_DIR="$here/target/repo" build cargo build --offline --locked --manifest-path /repo/Cargo.toml -p apiformes-bm ;;
S0*) CARGO_TARGET_DIR="$here/target/repo" build cargo build --offline --locked --manifest-path /repo/Cargo.toml -p apiformes-server ;;
esac
exec "$bin" "$@"
