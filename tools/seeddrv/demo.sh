#!/bin/bash
# cwd: the repository, after its build. Runs prog*.bas and compares the text screen with expect.txt.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
I=""; for d in "" graphics/pc graphics interpreter subsystem extension; do I="$I -I$R/source/$d"; done
S=$(find "$R/source" -name '*.c' ! -path '*/nds/*' ! -path "$R/source/main.c")
n=0; for f in $S; do n=$((n+1)); gcc -std=gnu11 -O1 -w -DPC $I -c "$f" -o "$W/$n.o" || exit 3 & done
gcc -std=gnu11 -O1 -w -DPC $I -c "$D/drv.c" -o "$W/drv.o" || exit 3
wait
gcc "$W"/*.o -o "$W/drv" -lm -lcsfml-audio -lcsfml-graphics -lcsfml-window -lcsfml-system -lpthread || exit 3
mkdir "$W/run" && cd "$W/run" || exit 2
OPTS=""; [ -f "$D/opts" ] && OPTS=$(cat "$D/opts")
timeout 60 "$W/drv" $OPTS "$D"/prog*.bas > "$W/out.txt" || { echo "drv failed: $?"; cat "$W/out.txt"; exit 1; }
if cmp -s "$W/out.txt" "$D/expect.txt"; then exit 0; fi
diff "$W/out.txt" "$D/expect.txt"; exit 1
