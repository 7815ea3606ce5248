#!/bin/bash
# usage: check.sh <ID> quick|thorough | check.sh replay <file> | check.sh build
# Builds the harness against /repo's current working tree, then runs one check.
# exit 0: held; 1: VIOLATION printed; 2: could not build; 3: inconclusive
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HARNESS_ROOT="$here"
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_INCREMENTAL RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$here/harness/target"
mkdir -p "$here/evidence"
build() { # feature
  local log="$here/evidence/build-$1.log"
  if ! (cd "$here/harness" && cargo build --offline --locked --no-default-features --features "$1" --target-dir "$CARGO_TARGET_DIR/$1") >"$log" 2>&1; then
    echo "check error: the harness does not build against /repo ($1)" >&2
    grep -E "^error" -A8 "$log" | head -60 >&2
    exit 2
  fi
}
# the crate with other sets of features: what they do is compared by C28
variants="none snappy gzip gzip+gzip_zlib_ng lz4 lz4_flex lz4+lz4_flex zstd brotli bloom_filter serde_types async \
  snappy+gzip+lz4_flex+zstd+brotli+bloom_filter snappy+gzip+lz4+zstd+brotli+bloom_filter+async+serde_types"
variants() {
  local v f log dir="$CARGO_TARGET_DIR/builds" out=""
  mkdir -p "$dir/bin"
  for v in $variants; do
    log="$here/evidence/build-variant.log"; f="${v//+/,}"; [ "$v" = none ] && f=""
    if (cd "$here/builds" && cargo build --offline --locked --features "$f" --target-dir "$dir") >"$log" 2>&1; then
      rm -f "$dir/bin/$v" && cp "$dir/debug/builds" "$dir/bin/$v" && out="$out$v=$dir/bin/$v;"
    elif grep -qE "could not compile .(parquet2|builds). " "$log"; then
      out="$out$v=!;"
    else
      echo "note: not compared, its dependencies do not build here: $v" >&2
    fi
  done
  export HARNESS_BUILDS="$out"
}
# the workload of the quick tier once more, in a build instrumented by a compiler sanitizer (nightly): a report ends the
# worker, which is a violation. Where the sanitizer cannot be built or does not report a planted error, it is left out.
sanitize() { # thread|address, id
  local kind="$1" dir="$CARGO_TARGET_DIR/san-$1" log="$here/evidence/build-$1.log" std=""
  [ "$kind" = thread ] && std="-Zbuild-std"
  if ! (cd "$here/harness" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=$kind" CC=clang CFLAGS="-fsanitize=$kind" \
        cargo build --offline --locked $std --target x86_64-unknown-linux-gnu --target-dir "$dir") >"$log" 2>&1; then
    echo "note: no $kind sanitizer build here (see $log)"; return 0
  fi
  local exe="$dir/x86_64-unknown-linux-gnu/debug/harness"
  export TSAN_OPTIONS="halt_on_error=1 abort_on_error=1" ASAN_OPTIONS="detect_leaks=0 abort_on_error=1 allocator_may_return_null=1"
  if (ulimit -c 0; "$exe" canary "$kind") >/dev/null 2>&1; then
    echo "note: the $kind sanitizer does not report the canary"; return 0
  fi
  HARNESS_SANITIZER="$kind" HARNESS_SCALE="${HARNESS_SCALE:-40}" "$exe" run "$2" quick
}
cmd="${1:-}"
case "$cmd" in
  build) build lz4c; build lz4flex; variants; exit 0 ;;
  replay)
    build lz4c
    grep -q '"property": "C28"' "$2" && variants
    for k in thread address; do
      if grep -q "\"sanitizer\": \"$k\"" "$2" && [ -x "$CARGO_TARGET_DIR/san-$k/x86_64-unknown-linux-gnu/debug/harness" ]; then
        export TSAN_OPTIONS="halt_on_error=1 abort_on_error=1" ASAN_OPTIONS="detect_leaks=0 abort_on_error=1 allocator_may_return_null=1"
        exec "$CARGO_TARGET_DIR/san-$k/x86_64-unknown-linux-gnu/debug/harness" replay "$2"
      fi
    done
    exec "$CARGO_TARGET_DIR/lz4c/debug/harness" replay "$2" ;;
  "") echo "usage: check.sh <ID> [quick|thorough]" >&2; exit 2 ;;
esac
build lz4c
if [ "$cmd" = C04 ]; then
  build lz4flex
  export HARNESS_PEER="$CARGO_TARGET_DIR/lz4flex/debug/harness"
fi
[ "$cmd" = C28 ] && variants
first=0
if [ "${2:-quick}" = thorough ]; then
  case "$cmd" in
    C25) sanitize thread "$cmd"; first=$? ;;
    C01|C04|C17|C18|C22) sanitize address "$cmd"; first=$? ;;
  esac
fi
"$CARGO_TARGET_DIR/lz4c/debug/harness" run "$cmd" "${2:-quick}"
rc=$?
[ "$first" -eq 1 ] && rc=1
exit $rc
