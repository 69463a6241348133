#!/bin/bash
# run.sh <property> [quick|thorough]   build from /repo's working tree and run one check
# run.sh replay <file>                 re-run one saved failing case
# run.sh build                         only build
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HV_DIR=$HERE
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$HERE/build/target CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_LIB_BACKTRACE
export RUST_BACKTRACE=0
mkdir -p "$HERE/build" "$HERE/evidence"
WHAT=${1:-}
if [ "$WHAT" = replay ]; then
  ID=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 5
else
  ID=$WHAT
fi
# C20 and up need the parser generated from the grammar (a stand-in for peginator); the others do not depend on it
BASE=no SEM=no CLI=no EDITOR_BIN=no
case "$ID" in
  C2[0-2]) SEM=yes ;;
  C23) SEM=yes CLI=yes ;;
  C16) BASE=yes EDITOR_BIN=yes ;;
  build) BASE=yes SEM=yes CLI=yes EDITOR_BIN=yes ;;
  *) BASE=yes ;;
esac
build() { cargo build --offline --quiet "$@" >&2 || return 5; }
(
  flock 9
  if [ $BASE = yes ]; then
    python3 "$HERE/tools/make_view.py" "$HERE/build/view" || exit 5
    build --manifest-path "$HERE/harness/Cargo.toml" --bin hv --bin hv_fetch || exit 5
    # This one contains sources of the command line tool: only the check that needs it builds it
    [ $EDITOR_BIN = no ] || build --manifest-path "$HERE/harness/Cargo.toml" --bin hv_editor || exit 5
  fi
  if [ $SEM = yes ]; then
    # (when only preparing, the checks that do not need this part must not suffer if it does not build)
    F=5; [ "$WHAT" != build ] || F=0
    python3 "$HERE/tools/make_view.py" "$HERE/build/view_full" full || exit $F
    build --manifest-path "$HERE/harness_sem/Cargo.toml" --bin hvs || exit $F
    [ $CLI = no ] || build --manifest-path "$HERE/harness_sem/Cargo.toml" --bin hv_cli || exit $F
  fi
) 9>"$HERE/build/lock" || { echo "ERROR: the harness does not build against /repo" >&2; exit 5; }
BIN=$CARGO_TARGET_DIR/debug/hv
[ $SEM = no ] || BIN=$CARGO_TARGET_DIR/debug/hvs
case "$WHAT" in
  build) exit 0 ;;
  replay) exec "$BIN" replay "$2" ;;
  *) exec "$BIN" run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
