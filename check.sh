#!/bin/bash
# check.sh ID [quick|thorough]: rebuild the monitors from /repo's working tree, run one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -n "${2:-}" ] && export VERIF_TIER="$2"
export KHMON_ROOT="$here"
"$here/build.sh" || { echo "build failed" >&2; exit 2; }
exec "$here/target/debug/khmon" check "$1"
