#!/bin/bash
# check.sh <property>: build the harness against /repo's working tree and decide one property.
# check.sh build: only build. VERIF_SEED and VERIF_TIER are honoured.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export QT_ROOT=$root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$root/harness/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
log=$(mktemp)
if ! (cd "$root/harness" && cargo build --release --locked --offline) >"$log" 2>&1; then
  grep -E '^error' -A12 "$log" | head -80 >&2
  rm -f "$log"
  echo "error: the harness does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/qtcheck" run "$@"
