#!/bin/bash
# check.sh PROPERTY [quick|thorough] [further arguments for algsim check]
# Exit 0: held on everything simulated. Exit 1 and a VIOLATION line: broken. 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
shift; shift
bin=$("$here/build.sh" "$prop") || { echo "check.sh: cannot build" >&2; exit 2; }
exec "$bin" check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --root "$here" "$@"
