#!/bin/bash
# Compiles main.rs against the library that build.sh builds and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=/tmp/openbook-demo
rm -rf /tmp/openbook-demo
mkdir -p "$d/src"
cp "$here/Cargo.toml" "$d/"
cp "$here/main.rs" "$d/src/"
cp "$P/Cargo.lock" "$d/"
cd "$d" || exit 3
timeout 250 cargo run --offline --quiet
code=$?
rm -rf /tmp/openbook-demo
exit $code
