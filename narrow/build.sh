#!/bin/bash
# Builds narrow.wasm. The toolchain has no standard library for wasm32, only its source: that is built first.
set -e
here=$(cd "$(dirname "$0")" && pwd)
target=$here/target
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
if [ "$(cat "$target/sysroot/version" 2>/dev/null)" != "$(rustc -V)" ]; then
  rm -rf "$target/sysroot" "$target/std"
  mkdir -p "$target/std" "$target/sysroot/lib/rustlib/wasm32-unknown-unknown/lib"
  cp -r "$(rustc --print sysroot)/lib/rustlib/src/rust/library" "$target/std/library"
  cd "$target/std/library"
  RUSTFLAGS="-Zforce-unstable-if-unmarked" RUSTC_BOOTSTRAP=1 __CARGO_DEFAULT_LIB_METADATA=stablestd \
    CARGO_TARGET_DIR=$target/std/out \
    cargo build --release --offline --target wasm32-unknown-unknown --manifest-path sysroot/Cargo.toml -p std -p panic_abort
  find "$target/std/out/wasm32-unknown-unknown" \( -name '*.rlib' -o -path '*/out/*.rmeta' \) \
    -exec cp {} "$target/sysroot/lib/rustlib/wasm32-unknown-unknown/lib/" \;
  rustc -V >"$target/sysroot/version"
  rm -rf "$target/std"
fi
cd "$here"
# Cargo trusts mtimes; forget its fingerprints so that rustc looks at the contents.
rm -rf "$target"/wasm32-unknown-unknown/release/.fingerprint/ntfs-* "$target"/wasm32-unknown-unknown/release/.fingerprint/narrow-*
RUSTFLAGS="--sysroot $target/sysroot -Clink-arg=-zstack-size=4194304" CARGO_TARGET_DIR=$target \
  cargo build --release --offline --locked --target wasm32-unknown-unknown
