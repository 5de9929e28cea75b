#!/bin/bash
# builds the MIR extractor, the dependencies and the replay crate once
V=$(cd "$(dirname "$0")/.." && pwd)
bash "$V/tools/dump.sh" /repo "$V/.cache/mir.json" || exit 1
cargo build -q --offline --manifest-path "$V/replay/Cargo.toml" --target-dir "$V/.cache/replay" || true
