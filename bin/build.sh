#!/bin/bash
# build.sh VARIANT: builds vctrs from /repo's working tree into
# /verif/_build/VARIANT/lib, with the build files of /verif only.
# Variants: plain; gc (every allocation made by vctrs may collect, see
# lib/gcshim.c); asan (address and undefined-behaviour sanitizers).
set -euo pipefail
V=${1:?variant}
ROOT=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
B=$ROOT/_build/$V
mkdir -p "$B/pkg" "$B/lib" "$ROOT/_build"
exec 9>"$B/lock"; flock 9
export LC_ALL=C.UTF-8 TZ=UTC R_LIBS_USER=/nonexistent R_PROFILE_USER=/nonexistent R_ENVIRON_USER=/nonexistent
unset R_LIBS || true
rsync -rlpc --delete --exclude='*.o' --exclude='*.d' --exclude='*.so' --exclude='*.a' \
  --include=/DESCRIPTION --include=/NAMESPACE --include=/LICENSE --include=/LICENSE.note \
  --include='/R/***' --include='/src/***' --include='/inst/***' \
  --include=/configure --include=/cleanup --include='/data/***' --include='/tools/***' \
  --exclude='*' "$REPO/" "$B/pkg/"
MK=$ROOT/lib/Makevars.$V
FLAGS=$(sha256sum "$MK" "$ROOT/lib/gcshim.c" | sha256sum)
if [ "$(cat "$B/flags" 2>/dev/null)" != "$FLAGS" ]; then rm -f "$B"/pkg/src/*.o "$B"/pkg/src/*.d "$B"/pkg/src/*/*.o; echo "$FLAGS" >"$B/flags"; fi
if [ "$V" != plain ]; then
  D=; [ "$V" = asan ] && D=-DVH_EXACT
  gcc -O2 -g -fno-omit-frame-pointer -fno-optimize-sibling-calls -fPIC $D -I/usr/share/R/include -c "$ROOT/lib/gcshim.c" -o "$B/gcshim.o"
fi
STAMP=$( (cd "$B/pkg" && find . -type f ! -name '*.o' ! -name '*.d' ! -name '*.so' -print0 | sort -z | xargs -0 sha256sum; sha256sum "$MK" "$ROOT"/lib/vhelp.c "$ROOT"/lib/gcshim.c "$ROOT/bin/build.sh") | sha256sum | cut -d' ' -f1)
if [ -f "$B/stamp" ] && [ "$(cat "$B/stamp")" = "$STAMP" ] && [ -f "$B/lib/vctrs/libs/vctrs.so" ] && [ -f "$B/vhelp.so" ]; then
  exit 0
fi
rm -rf "$B/lib/vctrs" "$B/stamp"; rm -f "$B"/pkg/src/*.so
export R_MAKEVARS_USER=$MK MAKEFLAGS=-j8 VERIF_BUILD_DIR=$B
( cd "$B" && cp "$ROOT/lib/vhelp.c" . && R_MAKEVARS_USER=/dev/null R CMD SHLIB -o vhelp.so vhelp.c ) >"$B/vhelp.log" 2>&1
R CMD INSTALL --no-docs --no-multiarch --no-lock --no-test-load --library="$B/lib" "$B/pkg" >"$B/install.log" 2>&1 || { tail -30 "$B/install.log" >&2; exit 2; }
echo "$STAMP" >"$B/stamp"
