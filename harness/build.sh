#!/bin/bash
# Builds the harness from /repo's current working tree, out of tree, into $1 (default /verif/build).
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
REPO=${REPO:-/repo}
mkdir -p "$out/obj"
# what was built from another tree says nothing about this one
if [ "$(cat "$out/tree" 2>/dev/null)" != "$REPO" ]; then
	rm -rf "$out/obj"/* "$out/world" "$out/dworld"
	echo "$REPO" >"$out/tree"
fi
exec make -s -j8 -f "$here/world.mk" HERE="$here" OUT="$out" REPO="$REPO" all
