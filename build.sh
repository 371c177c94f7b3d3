#!/bin/bash
# builds both harness variants (used while developing)
. /opt/vp/env.sh 2>/dev/null
cd /verif/harness
RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR=/verif/.build/plain cargo build -q --release --offline
RUSTFLAGS="-Awarnings --cfg generic_btree_verif --cfg generic_btree_verif_gap" CARGO_TARGET_DIR=/verif/.build/small cargo build -q --release --offline
