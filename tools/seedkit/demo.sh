#!/bin/bash
# Exit 0: the property holds in this scenario. Runs in the root of the repository.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo="$PWD"
w="$(mktemp -d /tmp/seed-demo.XXXXXX)" || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here"/*.rs "$w/src/" || exit 2
cp "$here/Cargo.lock" "$w/" || exit 2
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$w/Cargo.toml" || exit 2
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" cargo build --offline --locked > "$w/log" 2>&1 || { tail -30 "$w/log"; exit 3; }
timeout 120 "$w/target/debug/demo"
