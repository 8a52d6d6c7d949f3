#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/symex)
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build/symex}; mkdir -p "$(dirname "$OUT")"
LC=$(command -v llvm-config-18 || command -v llvm-config)
if [ -x "$OUT" ] && [ "$OUT" -nt "$D/symex.cpp" ] && [ "$OUT" -nt "$D/builtins.h" ] && [ "$OUT" -nt "$D/solver.h" ] && [ "$OUT" -nt "$D/expr.h" ] && [ "$OUT" -nt "$D/poly.h" ] && [ "$OUT" -nt "$D/interval.h" ] && [ "$OUT" -nt "$D/build_engine.sh" ]; then exit 0; fi
# the newer z3 library shipped with the python tooling when it is there, else the system's
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3; ZI=; ZL="-lz3"
if [ -z "$VERIF_OLDZ3" ] && [ -f $Z/lib/libz3.so ] && [ -f $Z/include/z3++.h ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -Wl,-rpath,$Z/lib -lz3"; fi
g++ -O2 -std=c++17 -w $ZI $($LC --cppflags) "$D/symex.cpp" -o "$OUT.tmp.$$" $($LC --ldflags --libs) $ZL
mv -f "$OUT.tmp.$$" "$OUT"
