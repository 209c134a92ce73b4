# sourced by demo.sh: compiles the library with the stand-ins beside it and demo.cc; leaves ./demo
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d) || exit 2; trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
: > config.h
F="-w -O1 -g -fsanitize=address -DHAVE_CLOCK_GETTIME=1 -DHAVE_ENDIAN_H=1 -DHAVE_DECL_LE16TOH=1 -D_GNU_SOURCE -I$W -I$D -I$R -I$R/dnstable -I$R/libmy"
for s in "$R"/dnstable/*.c "$R/libmy/my_format.c" "$D"/*.c; do gcc $F -c "$s" -o "$(basename "$s" .c)_$RANDOM.o" & done
g++ $F -c "$D/demo.cc" -o demo.o & wait
g++ $F *.o -o demo -lm || exit 2
