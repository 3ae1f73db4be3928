#!/bin/bash
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$here/harness" || exit 2
export CARGO_TARGET_DIR="$here/target"
log="$here/target/build.log"
mkdir -p "$here/target"
cargo build --offline --locked >"$log" 2>&1 && exit 0
tail -40 "$log" >&2
exit 2
