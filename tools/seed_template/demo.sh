#!/bin/bash
# Builds demo.cc together with the sources it needs from the working tree (cwd) and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/shim"; tar -xzf "$here/shim.tgz" -C "$tmp/shim"
python3 "$here/build.py" "$here/demo.cc" "$repo" "$tmp/shim" "$tmp" || exit 4
cd "$tmp" && timeout 120 ./demo
