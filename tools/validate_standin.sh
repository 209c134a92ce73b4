#!/bin/bash
# Validate the libmtbl/libwdns stand-ins: build dnstable against them and run the repository's own
# test programs and scripts (which need the real libraries otherwise).
set +e
V=$(cd "$(dirname "$0")/.." && pwd); R=${REPO:-/repo}
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p $W/src $W/tests
: > $W/config.h
D="-DHAVE_CLOCK_GETTIME=1 -DHAVE_ENDIAN_H=1 -DHAVE_DECL_LE16TOH=1 -D_GNU_SOURCE -DPACKAGE_VERSION=\"x\" -DSRCDIR=\"$R\""
F="-g -O1 -fsanitize=address,undefined -I$W -I$V/standin -I$R -I$R/dnstable -w $D"
L="$V/standin/mtbl.c $V/standin/wdns.c -DSTANDIN_ZLIB -lz -lm"
S="$R/dnstable/*.c $R/libmy/my_format.c"
gcc $F -o $W/src/dnstable_lookup $R/src/dnstable_lookup.c $S $L &
gcc $F -o $W/src/dnstable_dump $R/src/dnstable_dump.c $R/libmy/argv.c $S $L &
gcc $F -o $W/tests/test-dnstable $R/tests/test-dnstable.c $S $L &
gcc $F -o $W/tests/test-bitmaps $R/tests/test-bitmaps.c $S $L &
gcc $F -o $W/merge $V/tools/mini_merge.c $S $L &
wait
for t in tests test_timefilter; do
  sed "s,@abs_top_srcdir@,$R,g;s,@abs_top_builddir@,$W,g" $R/tests/$t.sh.in > $W/$t.sh; chmod +x $W/$t.sh
done
printf '#!/bin/sh\nexec %s "$@"\n' $W/merge > $W/tests/test-dnstable_merge; chmod +x $W/tests/test-dnstable_merge
export ASAN_OPTIONS=detect_leaks=${LEAKS:-0}
(cd $W && ./tests/test-dnstable 2>&1 | tail -5; echo "test-dnstable rc=${PIPESTATUS[0]}")
(cd $W && ./tests.sh > out 2>&1; echo "tests.sh rc=$?"; grep -c PASS out; grep -v PASS out | head -${LINES_SHOWN:-40})
(cd $W && ./test_timefilter.sh > out 2>&1; echo "test_timefilter.sh rc=$?"; grep -c PASS out; grep -v PASS out | head -20)
