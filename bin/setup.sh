#!/bin/bash
# Everything is built by the checks themselves, from /repo's working tree, in scratch
# directories.  This only proves that the tools are there and that the harness builds.
set -e
D=$(mktemp -d /tmp/m4x_setup_XXXXXX)
trap 'rm -rf "$D"' EXIT
cd "$(dirname "$0")/.."
bash bin/build_harness.sh "$D" >/dev/null
mkdir -p evidence
printf "H 1\nfield 1 7\nmzed_init 2 1 3 3\nfill 2 rand 5\n" > "$D/s.txt"
ASAN_OPTIONS=detect_leaks=0 "$D/m4x" "$D/s.txt" "$D/s.nd"
test -s "$D/s.nd"
echo "setup ok"
