#!/bin/bash
# check.sh build | <property-id> [quick|thorough] | replay <file> | case <id> <space> <index> | list
# Rebuilds the explorer against /repo's current working tree, then explores.
set -u
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
ROOT="$(cd "$(dirname "$0")" && pwd)"
T="$ROOT/target"
mkdir -p "$T" || exit 2

build() {
  # cargo decides by modification time; a content hash makes sure that any change of the sources is seen
  local h log="$T/build.log"
  h=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$T/stamp" 2>/dev/null)" != "$h" ]; then
    rm -f "$T/stamp"
    (cd "$ROOT/mc" && cargo clean --release --offline --target-dir "$T" -p smdiff-common -p smdiff-reader -p smdiff-writer -p smdiff-decoder -p smdiff-encoder -p smdiff-merger -p smdiff-vcdiff -p smc) >/dev/null 2>&1
  fi
  if ! (cd "$ROOT/mc" && cargo build --release --offline --locked --target-dir "$T") >"$log" 2>&1; then
    tail -40 "$log" >&2
    return 1
  fi
  echo "$h" >"$T/stamp"
}
exec 9>"$T/lock"
flock 9
build || { echo "build failed" >&2; exit 2; }
flock -u 9
SMC="$T/release/smc"
case "${1:-}" in
  build) exit 0 ;;
  list) exec "$SMC" list ;;
  replay|case) exec "$SMC" "$@" --root "$ROOT" ;;
  P*) tier="${2:-${VERIF_TIER:-quick}}"; exec "$SMC" check "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" --root "$ROOT" ;;
  *) echo "usage: check.sh build|list|<id> [quick|thorough]|replay FILE|case ID SPACE INDEX" >&2; exit 2 ;;
esac
