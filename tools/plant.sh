#!/bin/bash
# plant.sh ID [RUNS]: confirm a planted bug in scratch copies, then run the check of its property on it.
# The change is in /tmp/pl/$ID (a copy of /repo with the edit applied) or in seeded/ID/patch.diff.
ID=$1; RUNS=$2; S=/verif/seeded/$ID; W=/tmp/pl/w-$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -d /tmp/pl/clean ] || cp -a /repo /tmp/pl/clean
rm -rf "/tmp/pl/w-$ID"; cp -a /repo "$W"; cd "$W" || exit 1
git apply "$S/patch.diff" || { echo "$ID: does not apply"; exit 1; }
export CC=gcc CCSANI=1 NOOPENSSL=1 NOJEMALLOC=1 NOMIMALLOC=1 NOURING=1
find src -name '*.c' -newer pogocache >/dev/null; for f in $(git diff --name-only); do rm -f "${f%.c}.o"; case $f in *.h) rm -f src/*.o;; esac; done; rm -f pogocache
make -C "$W" -j8 CC=gcc all >/tmp/pl/$ID.build 2>&1 || { echo "$ID: does not build"; tail -5 /tmp/pl/$ID.build; exit 1; }
(cd /tmp/pl/clean && bash "$S/demo.sh" >/tmp/pl/$ID.clean 2>&1); a=$?
(cd "$W" && bash "$S/demo.sh" >/tmp/pl/$ID.patched 2>&1); b=$?
echo "$ID ($P): demo clean=$a patched=$b"; [ $a = 0 ] || tail -3 /tmp/pl/$ID.clean; tail -2 /tmp/pl/$ID.patched
[ -n "$NOCHECK" ] && exit
B=$(REPO=$W OUT=/tmp/pl/build /verif/sim/build.sh 2>/dev/null) || { echo "$ID: sim build failed"; exit 1; }
cd /verif; $B check --prop $P --tier quick --seed ${SEED:-1} --evidence /tmp/pl/$ID.json --known known_findings.txt --replays /tmp/pl/replay-$ID ${RUNS:+--runs $RUNS} 2>&1 | tail -3 | cut -c1-300
rm -rf "/tmp/pl/w-$ID"
