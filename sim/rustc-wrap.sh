#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test (and only it) with a callback at every
# control-flow edge (SanitizerCoverage), which the simulator uses as a scheduling point.
rustc="$1"; shift
crate=
prev=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && crate="$a"
    prev="$a"
done
if [ "$crate" = algebraics ] || [ "$crate" = algsim_exec ]; then
    args=()
    skip=
    for a in "$@"; do
        # the cdylib is of no use here and would not link
        if [ -n "$skip" ]; then skip=; [ "$a" = cdylib ] && continue; args+=(--crate-type "$a"); continue; fi
        if [ "$a" = "--crate-type" ]; then skip=1; continue; fi
        args+=("$a")
    done
    exec "$rustc" "${args[@]}" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard -C codegen-units=4 -A warnings
fi
exec "$rustc" "$@"
