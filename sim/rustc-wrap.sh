#!/bin/sh
# RUSTC_WRAPPER for the instrumented flavours: compiles the library under test and
# the thin shim that instantiates its generic functions with a callback at every
# basic-block edge. With SIM_MEM=1 also at every load and store; copies of memory
# are then calls that the simulator serves. Everything else is compiled unchanged.
rustc=$1
shift
mem=
cfg=
if [ "$SIM_MEM" = 1 ]; then
    mem="-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
    mem="$mem -Cllvm-args=-max-store-memcpy=1 -Cllvm-args=-max-store-memset=1"
    cfg="--cfg sim_mem"
fi
case " $* " in
*" --crate-name ntrust_native "* | *" --crate-name shim "*)
    exec "$rustc" "$@" -Cembed-bitcode=no -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard $mem
    ;;
*" --crate-name simcore "*) exec "$rustc" "$@" $cfg ;;
*) exec "$rustc" "$@" ;;
esac
