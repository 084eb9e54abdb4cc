#!/bin/bash
# usage: check.sh <id> quick|thorough [engine options] | check.sh <id> replay <file> | check.sh <id> build
# Compiles the property's harness against /repo's current tree and runs it.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
ulimit -s 500000 2>/dev/null
REPO=${DART_REPO:-/repo}
ID=$1; MODE=${2:-quick}; shift 2
OUT=$ROOT/build/$ID
mkdir -p "$OUT" evidence replays
CXX=clang++
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr,pointer-overflow,nonnull-attribute"
OPT="-O0"
STD="-std=c++14"
LIBS="-lyaml"
SRCS="dartlib"            # dart-dependent harness sources
WRAP="-Wl,--wrap=malloc,--wrap=posix_memalign,--wrap=aligned_alloc"
ALLOC=alloc
ABI=""
LINES="-gline-tables-only"
COV=""
[ "$MODE" = thorough ] && COV="-fsanitize-coverage=inline-8bit-counters"
[ -n "$DART_COV" ] && COV="-fsanitize-coverage=inline-8bit-counters"
[ -f harness/conf/$ID ] && . harness/conf/$ID
DART="-I$REPO/include -DDART_HAS_RAPIDJSON=1 -DDART_HAS_YAML=1"
WARN="-Wno-everything"
DFLAGS="$STD $OPT $LINES $SAN $COV -ftrivial-auto-var-init=pattern $DART $WARN $DEFS"
pids=(); ok=1
comp() { # output command...
  local o=$1; shift
  ( "$@" -c -o "$OUT/$o.o" >"$OUT/$o.err" 2>&1 || { echo "compilation of $o failed"; head -c 3000 "$OUT/$o.err"; exit 1; } ) & pids+=($!)
}
for s in engine model codec $ALLOC; do comp $s $CXX -std=c++14 -O1 $WARN harness/$s.cc; done
for s in $SRCS; do comp $s $CXX ${DFLAGS/$OPT/-O1} harness/$s.cc; done
for f in harness/p_$ID.cc harness/p_${ID}_*.cc; do [ -f $f ] && comp $(basename $f .cc) $CXX $DFLAGS -Iharness $f; done
for s in $ABI; do comp abi_$s $CXX $DFLAGS $REPO/src/$s.cc; done
for p in "${pids[@]}"; do wait $p || ok=0; done
[ $ok = 1 ] || exit 2
OBJS=""
for s in engine model codec $ALLOC $SRCS; do OBJS="$OBJS $OUT/$s.o"; done
for f in harness/p_$ID.cc harness/p_${ID}_*.cc; do [ -f $f ] && OBJS="$OBJS $OUT/$(basename $f .cc).o"; done
for s in $ABI; do OBJS="$OBJS $OUT/abi_$s.o"; done
$CXX $SAN $OPT $OBJS -o "$OUT/run" $WRAP $LIBS -lpthread || exit 2
case $MODE in
  build) exit 0;;
  replay) exec "$OUT/run" --root "$ROOT" --replay "$@";;
  *) "$OUT/run" --root "$ROOT" --tier "$MODE" --seed "${VERIF_SEED:-1}" "$@"; exit $?;;
esac
