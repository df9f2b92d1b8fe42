#!/bin/bash
# build_harness.sh OUTDIR [gcov]: compile the library sources of /repo's working tree
# together with the recording harness.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${M4RIE_REPO:-/repo}
OUT=$1; MODE=$2
mkdir -p "$OUT/inc"
cat > "$OUT/inc/config.h" <<'C'
#define NDEBUG 1
#define PACKAGE "m4rie"
#define VERSION "verif"
C
ln -sfn "$REPO/src" "$OUT/inc/m4rie"
CF="-g -O1 -std=gnu99 -w -mmmx -msse -msse2 -I$OUT/inc -I$HERE/harness"
case "$MODE" in
  gcov) CF="$CF -O0 --coverage -DM4X_GCOV" ;;
  plain) CF="$CF -O2" ;;
  *) CF="$CF -fsanitize=address -fno-omit-frame-pointer" ;;
esac
pids=()
for f in "$REPO"/src/*.c "$HERE"/harness/m4x.c; do
  o="$OUT/$(basename "${f%.c}").o"
  ( cd "$OUT" && gcc $CF -c "$f" -o "$o" ) & pids+=($!)
done
rc=0; for p in "${pids[@]}"; do wait "$p" || rc=1; done
[ $rc = 0 ] || exit 1
WRAP=""
for f in $(grep -o '__wrap_[a-z0-9_]*' "$HERE/harness/m4x.c" | sort -u) $(grep -o '^WRAP([^,]*, [a-z0-9_]*' "$HERE/harness/m4x.c" | sed 's/.*, /__wrap_/'); do
  [ "$f" = __wrap_ ] || WRAP="$WRAP -Wl,--wrap=${f#__wrap_}"
done
gcc $CF $WRAP "$OUT"/*.o -o "$OUT/m4x" -lm4ri -lm
