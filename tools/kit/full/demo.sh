#!/bin/bash
# Compiles the whole program together with src/main.rs and runs it. The crates that are not
# available here (fixed, pyth, switchboard, ...) are replaced by the small ones in shims/.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER= RUSTFLAGS= CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR=/repo/target/demo
d=/tmp/openbook-demo
rm -rf /tmp/openbook-demo
mkdir -p "$d"
cp -r "$here/src" "$here/shims" "$here/Cargo.toml" "$here/Cargo.lock" "$d/"
find /repo/target/demo/debug/.fingerprint -maxdepth 1 \( -name 'openbook-v2-*' -o -name 'demo-*' \) -exec rm -rf {} + 2>/dev/null
cd "$d" || exit 3
timeout 290 cargo run --offline --quiet
code=$?
rm -rf /tmp/openbook-demo
exit $code
