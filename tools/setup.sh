#!/bin/bash
# warms the Go build cache; every check builds the driver again from /repo's working tree
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/.work/setup" "$V/evidence"
"$V/tools/build.sh" "$V/.work/setup/drv"
rm -rf "$V/.work/setup"
