#!/bin/bash
# Builds the simulator and the node library (all of /repo/src plus the driver) from /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
export CCACHE_DIR=$here/build/ccache CCACHE_MAXSIZE=3G CCACHE_NOHASHDIR=1
mkdir -p "$here/build/b" "$here/evidence"
exec 9>"$here/build/lock"
flock 9
log=$here/build/build.log
{
  if [ ! -f "$here/build/b/build.ninja" ]; then
    l=; command -v ccache >/dev/null && l=-DCMAKE_CXX_COMPILER_LAUNCHER=ccache
    cmake -S "$here/sim" -B "$here/build/b" -G Ninja $l || cmake -S "$here/sim" -B "$here/build/b" -G Ninja
  fi
  ninja -C "$here/build/b"
} >"$log" 2>&1
rc=$?
if [ $rc != 0 ]; then
  echo "build of the simulator failed:"
  grep -E "error|FAILED" "$log" | head -20
  tail -5 "$log"
  exit 2
fi
