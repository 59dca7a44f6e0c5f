#!/bin/bash
# Builds the framework once; every check builds again what it needs.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
for c in mc geom; do
  [ -f $c/Cargo.toml ] || continue
  cargo build --release --offline --quiet --manifest-path $c/Cargo.toml || exit 2
done
RUSTFLAGS="$RUSTFLAGS --cfg boostvoronoi_mc" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/hook" cargo build --release --offline --quiet --manifest-path mc/Cargo.toml || exit 2
