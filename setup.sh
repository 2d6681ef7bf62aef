#!/bin/bash
# Builds the extractor and (once, to warm the dependency cache) the harness from the committed files, offline.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
mkdir -p work evidence replays
(cd gcx && CARGO_TARGET_DIR="$PWD/target" cargo build --release --offline --locked) || exit 1
(cd harness && CARGO_TARGET_DIR=/verif/work/target cargo build --release --offline --locked) || echo "the harness does not build on this tree; each check says so"
exit 0
