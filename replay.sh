#!/bin/bash
# replay.sh FILE: rebuild and re-run the one recorded episode.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export KHMON_ROOT="$here"
"$here/build.sh" || exit 2
exec "$here/target/debug/khmon" replay "$1"
