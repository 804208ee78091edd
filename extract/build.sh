#!/bin/bash
# build the extractor (if needed) and extract the IR of /repo's current tree
# usage: build.sh <build dir> <repo>
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
B="$1"; R="$2"; mkdir -p "$B"
if [ ! -x "$B/tecsx" ] || [ "$here/extract/tecsx.cpp" -nt "$B/tecsx" ]; then
  g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/extract/tecsx.cpp" -o "$B/tecsx.$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv "$B/tecsx.$$" "$B/tecsx"
fi
pids=()
for c in "" -DTECS_UNCHECKED_MODE -DTECS_ENABLE_PERFORMANCE_TRACING -DTCV_ORDER2; do
  ( "$B/tecsx" "$here/tu/main.cpp" -w -std=c++20 -I"$R/inc" -DTECS_SRC="\"$R/src/Tecs.cc\"" $c -resource-dir /usr/lib/llvm-18/lib/clang/18 > "$B/ir$c.json.$$" 2> "$B/ir$c.err" && mv "$B/ir$c.json.$$" "$B/ir$c.json" ) &
  pids+=($!)
done
rc=0; for p in "${pids[@]}"; do wait "$p" || rc=1; done
exit $rc
