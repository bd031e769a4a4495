#!/bin/bash
# build.sh OUTDIR: the library of /repo's working tree, instrumented, plus the simulator -> OUTDIR/simc
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
out=$1
mkdir -p "$out"
CXX=${CXX:-g++}
[ -z "$COVER" ] || { COVER1=-DCOVER; COVER2=-fsanitize-coverage=trace-pc; }  # tools/cover.py only
SIMFLAGS="$COVER1 -std=gnu++17 -O2 -g1 -Wall -Wno-unused -fno-builtin -fno-tree-loop-distribute-patterns -I$here/sim -I$repo/src"
LIBFLAGS="$COVER2 -std=gnu++17 -O1 -g1 -DNDEBUG -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -I$repo/src -I$here/sim -w"
export CXX SIMFLAGS LIBFLAGS out
cc1() { $CXX $1 -c "$2" -o "$out/$3.o" 2>"$out/$3.err" || { cat "$out/$3.err" >&2; touch "$out/failed"; exit 255; }; }
export -f cc1
rm -f "$out"/*.o "$out/failed" "$out/simc"
{
  while IFS= read -r f; do
    n=lib_$(echo "${f#$repo/src/}" | tr '/.' '__')
    echo "cc1 \"\$LIBFLAGS\" '$f' '$n'"
  done < <(find "$repo/src" -name '*.cc' | sort)
  echo "cc1 \"\$LIBFLAGS\" '$here/sim/libcalls.cc' call_libcalls"
  for f in rt model scn exec gen hist cluster main; do
    if [ -f "$here/sim/$f.cc" ]; then echo "cc1 \"\$SIMFLAGS\" '$here/sim/$f.cc' sim_$f"; fi
  done
} > "$out/jobs"
tr '\n' '\0' < "$out/jobs" | xargs -0 -P "$(nproc)" -I{} bash -c '{}' || { echo "build failed" >&2; exit 2; }
[ ! -f "$out/failed" ]
# libc's memory and string functions, as the library's objects see them, go through the simulator
for f in malloc free calloc realloc aligned_alloc posix_memalign strdup strndup strnlen strcmp strncmp strcasecmp strncasecmp strcpy strncpy strcat strchr strrchr strstr \
  strtof strtod strtold strtol strtoll strtoul strtoull __isoc23_strtol __isoc23_strtoll __isoc23_strtoul __isoc23_strtoull vsnprintf snprintf vsprintf sprintf; do
  echo "$f simlib_$f"
done > "$out/redefine"
for f in "$out"/lib_*.o "$out"/call_*.o; do objcopy --redefine-syms="$out/redefine" "$f"; done
$CXX -no-pie -o "$out/simc" "$out"/lib_*.o "$out"/call_*.o "$out"/sim_*.o -lpthread -ldl
