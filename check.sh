#!/bin/bash
# check.sh PROPERTY TIER: builds from /repo's working tree, searches, writes evidence/PROPERTY.json
here=$(cd "$(dirname "$0")" && pwd)
p=$1 tier=${2:-quick}
"$here/build.sh" 9>&- || exit 2
if [ "$tier" = thorough ]; then s=${SECONDS_PER_CHECK:-780}; else s=${SECONDS_PER_CHECK:-30}; fi
exec "$here/build/b/dst" check "$p" --tier "$tier" --seconds "$s" --seed "${VERIF_SEED:-1}"
