#!/bin/bash
# ./check.sh <ID>: rebuilds bulloak from /repo and decides property <ID>.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/bin/build.sh" || exit 2
export BVH_VERIF="$here" BVH_BIN="$here/target/debug/bulloak" BVH_PROBE="$here/target/probe/debug/bvprobe"
exec "$here/harness/target/release/bvh" check "$1"
