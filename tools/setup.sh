#!/bin/bash
set -eu
V=$(cd "$(dirname "$0")/.." && pwd)
"$V/tools/build.sh" plain
"$V/tools/build.sh" extra
"$V/tools/build.sh" client
"$V/tools/build.sh" asan
