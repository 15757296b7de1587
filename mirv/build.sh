#!/bin/bash
# usage: build.sh BUILDDIR  -- builds the MIR server and metadata (with MIR) of /repo's crate
set -e
B=$(realpath -m "$1"); H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$B/roots/src"
export MIRV_RUSTC=$(rustup which --toolchain nightly rustc)
export MIRV_ARGS=$B/roots.args
SYS=$(rustc +nightly --print sysroot)
if [ ! -x "$B/mirdump" ] || [ "$H/driver/main.rs" -nt "$B/mirdump" ]; then
  rustc +nightly --edition 2021 -O -o "$B/mirdump.tmp" "$H/driver/main.rs" -C link-arg=-Wl,-rpath,"$SYS/lib" &
  DP=$!
fi
cp "$H/roots/Cargo.toml" "$B/roots/"; cp "$H/roots/src/lib.rs" "$B/roots/src/lib.rs"
if [ -n "$MIRV_LAB" ]; then cp "$H/lab/lab.rs" "$B/roots/src/lab.rs"; echo 'pub mod lab;' >>"$B/roots/src/lib.rs"; sed -i 's/^serde = .*/&\nchrono = "=0.4.24"/' "$B/roots/Cargo.toml"; fi
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock "$B/roots/Cargo.lock"
cd "$B/roots"
touch src/lib.rs
# the contents of the sources decide whether the crate is built again, not their time stamps
SUM=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$B/src.sum" 2>/dev/null)" != "$SUM" ]; then
  RUSTC=$H/rustc-wrap.sh CARGO_TARGET_DIR=$B/target CARGO_NET_OFFLINE=true cargo +nightly clean --offline -q -p openid4vci >/dev/null 2>&1 || true
fi
RUSTC=$H/rustc-wrap.sh CARGO_TARGET_DIR=$B/target CARGO_PROFILE_DEV_DEBUG=0 CARGO_NET_OFFLINE=true \
RUSTFLAGS="-Zalways-encode-mir -Zallow-features=try_trait_v2,formatting_options -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on --cap-lints=allow -Awarnings" \
  cargo +nightly check --offline -q >"$B/cargo.log" 2>&1 || { cat "$B/cargo.log" >&2; exit 4; }
echo "$SUM" >"$B/src.sum"
if [ -n "$DP" ]; then wait $DP && mv "$B/mirdump.tmp" "$B/mirdump"; fi
