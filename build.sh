#!/bin/bash
# build.sh [PROPERTY]: builds the simulator and, for the properties of the converter (or without an
# argument), the converter and the system it runs on, all from /repo's working tree.
cd "$(dirname "$0")" || exit 2
root=$PWD
export CARGO_TARGET_DIR=$root/sim/target CARGO_NET_OFFLINE=true
(cd sim && cargo build --offline --release) || exit 1
case ${1:-C} in
C*)
    (cd /repo && cargo build --offline --release -p hcl2json --config profile.release.opt-level=1 \
        --config profile.release.lto=false --config profile.release.codegen-units=16) || exit 1
    out=sim/target/release/libsimshim.so
    if [ ! -e $out ] || [ sim/shim/shim.c -nt $out ]; then
        gcc -O2 -Wall -shared -fPIC -o $out.new sim/shim/shim.c -ldl && mv $out.new $out || exit 1
    fi
    ;;
esac
