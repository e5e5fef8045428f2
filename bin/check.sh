#!/bin/bash
# usage: check.sh <property> [quick|thorough]     (or: check.sh replay <file>, check.sh build)
# Rebuilds what the property needs from /repo's working tree, then runs the check of one property.
ROOT=$(cd "$(dirname "$0")/.." && pwd)
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
export CARGO_TARGET_DIR="${HARNESS_TARGET:-$ROOT/target}"
export VERIF_ROOT="$ROOT" VERIF_SEED="${VERIF_SEED:-1}"
[ -n "$2" ] && [ "$1" != replay ] && export VERIF_TIER="$2"
export VERIF_TIER="${VERIF_TIER:-quick}"
mkdir -p "$CARGO_TARGET_DIR"
PROP="$1"
[ "$1" = replay ] && PROP=$(sed -n 's/^property //p' "$2" | head -1)
case "$PROP" in
  C01|C02|C03|C04) G=sem;;
  C05|C06|C24) G=transfo;;
  C07|C08|C09|C10|C11|C12) G=ana;;
  C18|C19|C20|C21) G=io;;
  C13|C14|C15|C16|C17) G=explore;;
  C22|C23) G=traces;;
  C29|C30|C32|C33) G=draw;;
  C25|C26|C27|C28|C31) G=out;;
  build) G=;;
  *) echo "unknown property $PROP" >&2; exit 2;;
esac
if [ -n "$G" ]; then WHAT="--bin h_$G --bin hibou"; else WHAT="--keep-going"; fi
(
  flock 9
  python3 "$ROOT/bin/sync.py" || exit 2
  cd "$ROOT/harness" && cargo build --release --offline --quiet $WHAT > "$CARGO_TARGET_DIR/build.log" 2>&1
) 9> "$CARGO_TARGET_DIR/.build.lock" || { grep -E '^error' -A 6 "$CARGO_TARGET_DIR/build.log" | head -40 >&2; echo "harness build failed" >&2; exit 2; }
ulimit -v 26000000
ulimit -c 0
BIN="$CARGO_TARGET_DIR/release/h_$G"
export HIBOU_BIN="$CARGO_TARGET_DIR/release/hibou"
case "$1" in
  build) exit 0;;
  replay) timeout -k 10 600 "$BIN" replay "$(realpath "$2")" 3>&1 >/dev/null; exit $?;;
  *) LIM=840; [ "$VERIF_TIER" = thorough ] && LIM=14400
     timeout -k 10 $LIM "$BIN" run "$1" 3>&1 >/dev/null; exit $?;;
esac
