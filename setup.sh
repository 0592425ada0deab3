#!/bin/bash
# Builds every explorer once, so that later checks only rebuild what depends on /repo.
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
( cd harness && cargo build --release --offline --bins ) || exit 1
if [ -d harness_nightly ]; then
  ( cd harness_nightly && CARGO_TARGET_DIR="$PWD/../target/nightly" RUSTFLAGS="--cfg rustnomial_verif" cargo +nightly build --release --offline --bins ) || exit 1
fi
