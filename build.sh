#!/bin/bash
# Builds the simulator together with the library as it is in /repo's working tree.
# Prints the path of the binary. Exit 2 when it cannot be built.
#   build.sh [PROPERTY]
# When only the algebraic-number module does not compile, the properties that do not need it
# (all but C08, C09, C10) are still decided, with that module left out.
here=$(cd "$(dirname "$0")" && pwd)
repo=${ALGSIM_REPO:-/repo}
prop=$1
target=${ALGSIM_TARGET:-$here/target}
mkdir -p "$target" || exit 2
exec 9>"$target/build.lock"
flock 9
export RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER=$here/sim/rustc-wrap.sh RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
log=$target/build.log
sim=$here/sim
if [ "$repo" != /repo ]; then
    # for experiments on a copy; never used by the registered checks
    sim=$target/simcopy
    rm -rf "$target/simcopy" && cp -a "$here/sim" "$sim" || exit 2
    sed -i "s#path = \"/repo\"#path = \"$repo\"#" "$sim/exec/Cargo.toml"
    export RUSTC_WRAPPER=$sim/rustc-wrap.sh
fi
if (cd "$sim" && CARGO_TARGET_DIR=$target cargo build --offline --release) >"$log" 2>&1; then
    echo "$target/release/algsim"
    exit 0
fi
case "$prop" in C08|C09|C10) cat "$log" >&2; exit 2;; esac
# without the algebraic numbers
fb=$target/fallback
rm -rf "$target/fallback"
mkdir -p "$fb/algebraics" || exit 2
cp -a "$here/sim" "$fb/sim" || exit 2
cp -a "$repo/src" "$repo/Cargo.toml" "$repo/README.md" "$fb/algebraics/" || exit 2
rm -f "$fb/algebraics/src/algebraic_numbers.rs" "$fb/algebraics/src/prelude.rs"
sed -i '/mod algebraic_numbers;/d; /mod prelude;/d; /^pub use algebraic_numbers/d' "$fb/algebraics/src/lib.rs"
sed -i "s#path = \"/repo\"#path = \"$fb/algebraics\"#" "$fb/sim/exec/Cargo.toml"
if (cd "$fb/sim" && CARGO_TARGET_DIR=$fb/target RUSTC_WRAPPER=$fb/sim/rustc-wrap.sh \
        cargo build --offline --release --no-default-features) >>"$log" 2>&1; then
    echo "build.sh: the whole crate does not compile; algebraic numbers left out" >&2
    echo "$fb/target/release/algsim"
    exit 0
fi
cat "$log" >&2
exit 2
