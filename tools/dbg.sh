#!/bin/bash
# dbg.sh harness flavour replay
cd /tmp; rm -f /tmp/dbg.exe
R=/repo
if [ $2 = src ]; then S="$R/src/embedDB/embedDB.c $R/src/spline/spline.c $R/src/query-interface/advancedQueries.c $R/src/query-interface/schema.c $R/lib/EmbedDB-Utility/embedDBUtility.c"; D=""; I="-I$R/src/embedDB -I$R/src/spline -I$R/src/query-interface -I$R/lib/EmbedDB-Utility"; else S="$R/lib/Distribution/embedDB.c"; D=-DDIST; I="-I$R/lib/Distribution"; fi
O=""; n=0
for s in $S; do n=$((n+1)); clang -g -O0 -w -fsanitize=address $D $I -c $s -o /tmp/dbg$n.o || exit 1; O="$O /tmp/dbg$n.o"; done
clang++ -std=gnu++17 -g -O0 -w -fsanitize=address $D -DPBT_FLAVOUR='"'$2'"' $I -I/verif/harness /verif/harness/$1 $O -o /tmp/dbg.exe -lm
ASAN_OPTIONS=detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte=190 /tmp/dbg.exe --replay=$3
