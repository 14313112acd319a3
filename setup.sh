#!/bin/bash
# Builds everything once and shows that the simulator is deterministic here.
here=$(cd "$(dirname "$0")" && pwd)
bin=$("$here/build.sh") || exit 1
for p in C02 C06 C08 C11; do
    "$bin" determinism "$p" --runs 5 || exit 1
done
