#!/bin/bash
# build.sh OUT [SRC]   builds the simulator around the library sources in SRC (default /repo)
set -e
out=$1; src=${2:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out/lib" "$out/sim"
LF="-std=gnu++11 -O1 -g1 -fsanitize=thread -fsanitize-coverage=trace-pc -fno-omit-frame-pointer -w -I$src/src/lpaggreg/headers"
find "$src/src/lpaggreg" -name '*.cpp' | sort | xargs -P8 -I{} sh -c "n=\$(echo {} | sed 's#^$src/src/lpaggreg/##; s#[/.]#_#g'); g++ $LF -c {} -o $out/lib/\$n.o 2>$out/lib/\$n.log || { cat $out/lib/\$n.log >&2; exit 255; }" 
g++ -std=gnu++14 -O2 -g1 -Wall -Wno-misleading-indentation -fno-tree-loop-distribute-patterns -c "$here/rt.cpp" -o "$out/sim/rt.o" &
g++ -std=gnu++14 -O1 -g1 -w -I"$here" -I"$src/src/lpaggreg/headers" -c "$here/main.cpp" -o "$out/sim/main.o" &
# the R front end's C++ functions over a stand-in for Rcpp (C16); the other properties do without when it cannot be built
mkdir -p "$out/inc"; ln -sfn "$src/src/lpaggreg/headers" "$out/inc/lpaggreg"; rm -f "$out/rfront.o"
{ python3 "$here/rfront.py" "$src" "$out" && g++ -std=gnu++11 -O1 -g1 -fsanitize=thread -fsanitize-coverage=trace-pc -fno-omit-frame-pointer -w -I"$here/rstub" -I"$here" -I"$out/inc" -c "$out/rfront.cpp" -o "$out/rfront.o"; } >"$out/rfront.log" 2>&1 || rm -f "$out/rfront.o"
wait
[ -s "$out/sim/rt.o" ] && [ -s "$out/sim/main.o" ]
link() { g++ -no-pie -rdynamic $(ls $out/lib/*.o $out/rfront.o 2>/dev/null | sort) "$out/sim/main.o" "$out/sim/rt.o" -o "$out/lpsim.tmp" -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=pthread_once -lpthread -ldl "$@"; }
link 2>"$out/link.log" || link -Wl,--unresolved-symbols=ignore-all 2>"$out/link2.log" || { cat "$out/link.log" >&2; exit 1; }   # a function the library declares but lost is a crash of the call that needs it
mv "$out/lpsim.tmp" "$out/lpsim"
