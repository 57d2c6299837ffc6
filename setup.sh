#!/bin/bash
# builds the extractor and the harness from the committed files, offline
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
(cd tools/vex && cargo build --offline --release)
(cd replay && RUSTFLAGS="--cfg starry_verif" cargo build --offline --bin replay)
mkdir -p evidence out
