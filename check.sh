#!/bin/bash
# check.sh ID [quick|thorough]   build from /repo's current tree and run one check
# check.sh --build               build only
# check.sh --replay FILE         re-run a replay file
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS
TDIR="$VERIF_ROOT/target"
mkdir -p "$TDIR" evidence replays

build() { # crate dir, target subdir, further packages
  local dir="$1" t="$TDIR/$2" log="$TDIR/$2.log" h
  (
    flock 9
    # A change in /repo's sources must never be hidden by time stamps.
    h=$(cd /repo && find sparsesim stdlib backend runner pip -name target -prune -o \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 \
        | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    if [ -d "$t" ] && [ "$(cat "$t/.repo_hash" 2>/dev/null)" != "$h" ]; then
      (cd "$dir" && for p in quantum-sparse-sim qir-stdlib qir-backend runner qirrunner; do
        CARGO_TARGET_DIR="$t" cargo clean --release --offline -p "$p" >/dev/null 2>&1
      done)
    fi
    if ! (cd "$dir" && CARGO_TARGET_DIR="$t" cargo build --release --offline --locked --bins) >"$log" 2>&1; then
      echo "ERROR: building $dir failed; the end of $log:"
      tail -40 "$log"
      exit 2
    fi
    echo "$h" >"$t/.repo_hash"
    if [ -n "${3:-}" ] && ! (cd "$dir" && CARGO_TARGET_DIR="$t" cargo build --release --offline --locked -p "$3") >"$log" 2>&1; then
      echo "ERROR: building $3 failed; the end of $log:"
      tail -40 "$log"
      exit 2
    fi
  ) 9>"$TDIR/$2.lock"
}

bin_for() {
  case "$1" in
    C22) build runnerh r qirrunner || return 2; BIN="$TDIR/r/release/rverif" ;;
    C20|C21) build runnerh r || return 2; BIN="$TDIR/r/release/rverif" ;;
    *) build harness h || return 2; BIN="$TDIR/h/release/qverif" ;;
  esac
}

case "${1:-}" in
  --build)
    build harness h || exit 2
    [ -d runnerh ] && { build runnerh r qirrunner || exit 2; }
    exit 0 ;;
  --replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    bin_for "$id" || exit 2
    exec "$BIN" replay "$2" ;;
  C[0-9][0-9])
    bin_for "$1" || exit 2
    exec "$BIN" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
  *)
    sed -n 2,5p "$0"; exit 2 ;;
esac
