#!/bin/bash
# run_check.sh <property id> [replay <file>]
# Rebuilds the explorer of one property against /repo's current working tree and runs it.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
export CARGO_TARGET_DIR="${VERIF_TARGET_DIR:-$PWD/target}"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
build() {
  if [ "$bin" = c16 ]; then
    export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/nightly"
    ( cd harness_nightly && RUSTFLAGS="--cfg rustnomial_verif" cargo +nightly build --release --offline --bin "$bin" ) >"$log" 2>&1
  else
    ( cd harness && cargo build --release --offline --bin "$bin" ) >"$log" 2>&1
  fi
}
if ! build; then
  tail -60 "$log"
  # The harness uses the public interface only (C16: and the hook's re-export). If the crate itself
  # builds and all that the compiler misses are operations the property is about (an operator, a
  # method, a conversion or a macro no longer offered for a type), the property does not hold for it.
  codes="$(grep -oE '^error\[E[0-9]+\]' "$log" | sort -u | tr -dc 'E0-9\n')"
  if [ -n "$codes" ] && ! grep -q 'could not compile `rustnomial`' "$log" && grep -q 'could not compile `vharness' "$log" \
     && ! grep -vqE '^(E0277|E0599|E0369|E0368|E0600|E0423|E0425|E0432|E0433|E0282|E0283)$' <<<"$codes"; then
    mkdir -p replays
    { echo "property $id"; echo "an operation of the public interface is not offered any more; the harness does not compile:"; cat "$log"; } > "replays/$id.txt"
    echo "VIOLATION property=$id replay=$PWD/replays/$id.txt"
    exit 1
  fi
  echo "CHECK ERROR property=$id: the harness does not build against /repo"
  exit 2
fi
"$CARGO_TARGET_DIR/release/$bin" "$@"
