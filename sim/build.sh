#!/bin/bash
# Build the simulator from the current working tree of /repo (REPO overrides).
# Prints the path of the binary. Cached by content under /verif/build.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=${OUT:-$(dirname "$HERE")/build}
mkdir -p "$OUT"
HH=$(cat "$HERE"/*.cpp "$HERE"/*.h "$HERE"/build.sh "$REPO/src/pogocache.h" | sha256sum | cut -c1-16)
SH=$( (cd "$REPO/src" && find . -maxdepth 1 -name '*.[ch]' ! -name gitinfo.h | sort | xargs cat; cat "$HERE/shim.h" "$HERE/build.sh") | sha256sum | cut -c1-16)
BIN="$OUT/sim-$SH-$HH"
if [ -x "$BIN" ]; then echo "$BIN"; exit 0; fi
exec 9>"$OUT/.lock"; flock 9
if [ -x "$BIN" ]; then echo "$BIN"; exit 0; fi
J=${J:-8}
# ---- harness ----
HD="$OUT/h-$HH"
if [ ! -e "$HD/ok" ]; then
  mkdir -p "$HD"
  ls "$HERE"/*.cpp | xargs -P $J -I{} sh -c 'clang++ -std=c++17 -O1 -g1 -Wall -Wno-unused-variable -Wno-unused-but-set-variable -Wno-vla-cxx-extension -pthread -I"'"$REPO"'/src" -c {} -o "'"$HD"'/$(basename {} .cpp).o" || exit 255' 1>&2
  touch "$HD/ok"
fi
# ---- system under test ----
SD="$OUT/s-$SH"
rm -rf "$SD"; mkdir -p "$SD/inc"
cat > "$SD/inc/gitinfo.h" <<'G'
#define GITVERS "sim"
#define GITHASH "sim"
G
for f in gitinfo.h; do [ -e "$REPO/src/$f" ] && cp "$REPO/src/$f" "$SD/inc/" || true; done
nm "$HD/kern.o" | awk '$2=="T" && $3 ~ /^sim_/ {n=$3; sub(/^sim_/,"",n); print n" "$3}' | grep -v '^pause ' > "$SD/map"
echo "main pogo_main" >> "$SD/map"
ls "$REPO"/src/*.c | xargs -P $J -I{} sh -c '
  b=$(basename {} .c)
  cov="-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"
  [ "$b" = lz4 ] && cov=""
  clang -std=gnu11 -g1 -O1 -w -pthread -fno-strict-aliasing -fno-omit-frame-pointer -I"'"$SD"'/inc" -I"'"$REPO"'/src" -include "'"$HERE"'/shim.h" -DNOURING -DNOOPENSSL -DNOMIMALLOC -DNOJEMALLOC -DNOLIBDL -fsanitize=address $cov -c {} -o "'"$SD"'/$b.o" &&
  objcopy --redefine-syms="'"$SD"'/map" "'"$SD"'/$b.o" || exit 255' 1>&2
# which coverage points belong to which file, in link order
( echo 'const char *sut_files[] = {'; for f in "$SD"/*.o; do echo "\"$(basename $f .o)\","; done; echo '0 }; unsigned sut_guards[] = {'
  for f in "$SD"/*.o; do size -A "$f" | awk '$1=="__sancov_guards"{n+=$2} END{print n/4","}'; done; echo '0 };' ) > "$SD/sut_files.c"
clang -c -o "$SD/sut_files.oo" "$SD/sut_files.c" 1>&2
clang++ -fsanitize=address -pthread -no-pie -o "$BIN.tmp" "$SD"/*.o "$SD/sut_files.oo" "$HD"/*.o -lm 1>&2
# what the system under test still takes from the real libc
nm -u "$SD"/*.o | awk '$1=="U"{print $2}' | sort -u | grep -v -e '^sim_' -e '^__asan' -e '^__sanitizer' > "$SD/all" || true
nm "$SD"/*.o "$HD"/*.o | awk '$2 ~ /[TDBR]/{print $3}' | sort -u > "$SD/def"
comm -23 "$SD/all" "$SD/def" > "$BIN.libc"
mv "$BIN.tmp" "$BIN"
echo "$BIN"
