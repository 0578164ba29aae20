#!/bin/bash
# ./replay.sh <replays/FILE.json>: runs one saved case against /repo.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/bin/build.sh" || exit 2
export BVH_VERIF="$here" BVH_BIN="$here/target/debug/bulloak" BVH_PROBE="$here/target/probe/debug/bvprobe"
exec "$here/harness/target/release/bvh" replay "$1"
