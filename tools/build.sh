#!/bin/bash
# usage: build.sh plain|extra|client|asan
# Compiles the monitor binaries: plain for most properties, extra with the client library and the
# interface comparison, client with the client library's calls to a node, asan with AddressSanitizer. cargo decides by modification time, which says
# nothing after a restore, so the crates taken from /repo are recompiled whenever their content changed.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
mode=$1
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER
cd "$V/harness" || exit 2
mkdir -p "$V/evidence"
bin=obv-monitor
args=()
if [ "$mode" = asan ]; then
  T=$V/harness/target-asan
  out=$T/x86_64-unknown-linux-gnu/release
  export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address --cfg asan"
  args=(--target x86_64-unknown-linux-gnu)
else
  T=$V/harness/target
  out=$T/release
  export RUSTFLAGS=
  if [ "$mode" = extra ]; then
    bin=obv-extra
    args=(--features extra)
  elif [ "$mode" = client ]; then
    bin=obv-client
    args=(--features rustclient)
  fi
fi
export CARGO_TARGET_DIR=$T
exec 9>"$V/evidence/.build-lock-$(basename "$T")"
flock 9
digest() {
  find "$@" -type f -not -path '*/target/*' -not -path '*/node_modules/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1
}
repo=$(digest /repo/programs /repo/lib /repo/idl /repo/Cargo.toml "$V/shims")
sum=$repo-$(digest "$V/harness/src" "$V/harness/Cargo.toml" "$V/harness/Cargo.lock")
if [ -x "$out/$bin" ] && [ "$(cat "$T/.content-$mode" 2>/dev/null)" = "$sum" ]; then exit 0; fi
if [ -d "$out/.fingerprint" ]; then
  find "$out/.fingerprint" -maxdepth 1 -type d -name 'obv-monitor-*' -exec rm -rf {} +
  if [ "$(cat "$T/.content-repo" 2>/dev/null)" != "$repo" ]; then
    rm -f "$T/.content-repo"
    find "$out/.fingerprint" -maxdepth 1 -type d -name 'openbook-v2-*' -exec rm -rf {} +
  fi
fi
if ! timeout 1500 cargo build --release --offline --bin $bin "${args[@]}" > "$T.build-$mode.log" 2>&1; then
  rm -f "$T/.content-$mode"
  grep -E '^error' -A 12 "$T.build-$mode.log" | head -60
  exit 2
fi
echo "$repo" > "$T/.content-repo"
echo "$sum" > "$T/.content-$mode"
