#!/bin/bash
# mkseed.sh ID: lay the demo scaffolding into seeded/ID (patch.diff, main.rs, meta.json are written by hand).
set -eu
v="$(cd "$(dirname "$0")/.." && pwd)"; d="$v/seeded/$1"
mkdir -p "$d"
cp "$v/tools/seedkit/demo.sh" "$v"/tools/seedkit/*.rs "$v/tools/seedkit/Cargo.toml.in" "$v/tools/seedkit/Cargo.lock" "$d/"
