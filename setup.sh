#!/bin/sh
# Builds the extractor and the harness (the checks build them again when needed).
cd "$(dirname "$0")" || exit 1
mkdir -p target evidence
(cd extract && cargo build --offline --target-dir ../target/extract) || exit 1
python3 driver/stamp.py before "${HOP_REPO:-/repo}" target/harness target/server >/dev/null
(cd harness && RUSTFLAGS="--cfg hop_verif" cargo build --offline --features hooks --target-dir ../target/harness) || true
cargo build --offline --locked --manifest-path "${HOP_REPO:-/repo}/server/Cargo.toml" --target-dir target/server || true
python3 driver/stamp.py after "${HOP_REPO:-/repo}" target/harness target/server
exit 0
