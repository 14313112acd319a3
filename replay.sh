#!/bin/bash
# replay.sh FILE: runs a replay file against the library as it is in /repo now; exit 1 when the violation occurs.
here=$(cd "$(dirname "$0")" && pwd)
bin=$("$here/build.sh") || exit 2
exec "$bin" replay "$1" --root "$here"
