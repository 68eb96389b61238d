#!/bin/bash
# check.sh ID [harness options]: builds the harness from /repo's current tree and runs one property.
# check.sh build: only builds.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export PATH="/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export VERIF_DIR="$here"
mkdir -p "$here/evidence" "$here/replays"
id=${1:?usage: check.sh ID}
shift
[ "$id" = build ] || rm -f "$here/evidence/$id.json"

# build CRATE TARGET_DIR [cargo options]
build() {
  local crate=$1 target=$here/$2 log rc
  shift 2
  mkdir -p "$target"
  log=$target/build.$$.log
  (
    flock 9
    cd "$here/$crate" || exit 2
    # Cargo trusts mtimes; forget its fingerprints so that rustc looks at the contents.
    for d in "$target"/release "$target"/*/release; do
      rm -rf "$d"/.fingerprint/ntfs-* "$d"/.fingerprint/harness-* "$d"/.fingerprint/shell-*
    done
    CARGO_TARGET_DIR=$target cargo build --release --offline --locked "$@" 2>&1
  ) 9>"$target/.lock" >"$log"
  rc=$?
  if [ $rc -ne 0 ]; then
    echo "build of $crate failed:" >&2
    grep -vE '^warning' "$log" | tail -n 60 >&2
  fi
  rm -f "$log"
  return $rc
}

# The harness and the crate for a 32-bit platform.
narrow() {
  local target=$here/narrow/target log rc
  mkdir -p "$target"
  log=$target/build.$$.log
  ( flock 9; exec bash "$here/narrow/build.sh" ) 9>"$target/.lock" >"$log" 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then
    echo "build of narrow failed:" >&2
    grep -vE '^warning' "$log" | tail -n 60 >&2
  fi
  rm -f "$log"
  return $rc
}

# Only C17 needs the example; a change of the example must not keep the others from building.
if [ "$id" = C17 ] || [ "$id" = build ]; then
  build harness harness/target/sector --features sector || exit 2
  build shell shell/target || exit 2
  export VERIF_SHELL="$here/shell/target/release/ntfs-shell"
fi
[ "$id" = C17 ] && exec "$here/harness/target/sector/release/harness" check C17 "$@"
build harness harness/target || exit 2
if [ "$id" = C22 ] || [ "$id" = build ]; then
  narrow || exit 2
  export VERIF_WASM="$here/narrow/target/wasm32-unknown-unknown/release/narrow.wasm" VERIF_NARROW="$here/narrow/serve.mjs"
fi
[ "$id" = build ] && exit 0
# The thorough tier continues with a coverage-guided search, in a build that counts edges and
# watches comparisons. (C22 compares two builds, one of them not instrumented.)
if [ "${VERIF_TIER:-quick}" = thorough ] && [ "$id" != C22 ]; then
  cov="-C passes=sancov-module -C force-frame-pointers=yes"
  for o in level=3 inline-8bit-counters pc-table trace-compares; do
    cov="$cov -C llvm-args=-sanitizer-coverage-$o"
  done
  RUSTFLAGS=$cov build harness harness/target/guided --features guided --target x86_64-unknown-linux-gnu || exit 2
  export VERIF_GUIDED="$here/harness/target/guided/x86_64-unknown-linux-gnu/release/harness"
fi
exec "$here/harness/target/release/harness" check "$id" "$@"
