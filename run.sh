#!/bin/bash
# run.sh <property> [--replay <file>]   (tier: VERIF_TIER, seed: VERIF_SEED)
# Builds the harness against /repo's working tree and explores the property's space.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
case "$1" in
  P19) crate=geom bin=geom ;;
  # the only two that look at internals of /repo
  P21|P23) crate=mc bin=mc RUSTFLAGS="$RUSTFLAGS --cfg boostvoronoi_mc" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/hook" ;;
  *) crate=mc bin=mc ;;
esac
cargo build --release --offline --quiet --manifest-path "$crate/Cargo.toml" --bin "$bin" || exit 2
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
