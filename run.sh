#!/bin/bash
# usage: run.sh setup | check <ID> <quick|thorough> | replay <file>
# Builds the harness from /repo's current tree and runs it. Exit 0: held; 1: violation; 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export VERIF_ROOT=$here
bin=$here/harness/target/release/dochy_harness
asan=$here/harness/target-asan/x86_64-unknown-linux-gnu/release/dochy_harness

build() {
    ( flock 9; cd "$here/harness" && cargo build --release --offline --locked 2>"$here/harness/build.log" ) 9>"$here/harness/.lock"
    if [ $? -ne 0 ]; then
        cat "$here/harness/build.log"
        echo "build failed"
        exit 2
    fi
}
# the same harness under AddressSanitizer, for the parts that rest on raw pointers
build_asan() {
    ( flock 9; cd "$here/harness" && RUSTFLAGS="-Zsanitizer=address" cargo build --release --offline --locked \
        --target x86_64-unknown-linux-gnu --target-dir "$here/harness/target-asan" 2>"$here/harness/build-asan.log" ) 9>"$here/harness/.lock"
    if [ $? -ne 0 ]; then
        cat "$here/harness/build-asan.log"
        echo "build failed"
        exit 2
    fi
}
# the libraries that programs with generated accessors are compiled against
build_intf() {
    t=$here/harness/target-intf
    ( flock 9; cd "$here/intf" && cargo build --offline --locked --target-dir "$t" --message-format=json >"$here/harness/build-intf.json" 2>"$here/harness/build-intf.log" ) 9>"$here/harness/.lock"
    if [ $? -ne 0 ]; then
        cat "$here/harness/build-intf.log"
        echo "build failed"
        exit 2
    fi
    {
        echo "$t/debug/deps"
        grep -o '"[^"]*/libdochy-[0-9a-f]*\.rlib"' "$here/harness/build-intf.json" | tail -1 | tr -d '"'
        grep -o '"[^"]*/libdochy_diff-[0-9a-f]*\.rlib"' "$here/harness/build-intf.json" | tail -1 | tr -d '"'
    } >"$t/deps.txt"
}

case "$1" in
setup)
    build
    build_asan
    build_intf
    ;;
check)
    build
    case "$2" in
    I01)
        build_intf
        exec "$bin" check "$2" "$3"
        ;;
    L01|L02|R02)
        build_asan
        exec "$bin" check "$2" "$3" "$asan"
        ;;
    *)
        exec "$bin" check "$2" "$3"
        ;;
    esac
    ;;
replay)
    build
    grep -q '"property": "I01"' "$2" && build_intf
    exec "$bin" replay "$2"
    ;;
*)
    echo "usage: run.sh setup | check ID TIER | replay FILE"
    exit 2
    ;;
esac
