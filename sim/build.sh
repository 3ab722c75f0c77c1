#!/bin/bash
# Build the simulator from /repo's current working tree. Output: $1 (directory). Cached by content.
set -eu
OUT=${1:-/verif/build/sim}
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
SRCS=$(sed -n '/add_library *( *mdoodz/,/)/p' "$REPO/MDLIB/CMakeLists.txt" | grep -o '[A-Za-z0-9_./-]*\.c\b' | sort -u)
KEY=$( { for f in $SRCS; do cat "$REPO/MDLIB/$f"; done; cat "$REPO"/MDLIB/*.h "$REPO"/MDLIB/include/*.h $(ls "$REPO"/SETS/*.c 2>/dev/null) "$HERE"/*.c "$HERE"/*.h "$HERE"/*.py "$HERE/../mdv/params.py" "$HERE/build.sh"; } | sha256sum | cut -c1-24)
mkdir -p "$OUT"
exec 9>"$OUT/.lock"; flock 9
if [ -f "$OUT/key" ] && [ "$(cat "$OUT/key")" = "$KEY" ] && [ -x "$OUT/mdsim" ] && [ -x "$OUT/h5x" ]; then exit 0; fi
rm -f "$OUT/key"
H5I=$(pkg-config --cflags hdf5-serial 2>/dev/null || echo "-I/usr/include/hdf5/serial")
H5L=$(pkg-config --libs hdf5-serial 2>/dev/null || echo "-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5")
INC="-I$REPO/MDLIB -I$REPO/MDLIB/include -I/usr/include/suitesparse $H5I"
SAN="-fsanitize=thread --param tsan-instrument-func-entry-exit=0"
printf '%s\n' fopen fopen64 fdopen fileno popen pclose tmpfile system malloc calloc realloc free rand srand _exit _Exit | sed 's/\(.*\)/\1 sim_\1/' > "$OUT/redef"
cd "$OUT"; mkdir -p obj
cc1() { f=$1; o=obj/$(echo "$f" | tr / _).o
  gcc -w -std=gnu11 -g1 -O1 -fno-pie -U_FORTIFY_SOURCE -fno-stack-protector -fno-omit-frame-pointer -fopenmp -D_OMP_ $SAN $INC -c "$REPO/MDLIB/$f" -o "$o.tmp" && objcopy --redefine-syms=redef "$o.tmp" "$o" && rm -f "$o.tmp"; }
export -f cc1; export REPO INC SAN
rm -f obj/*.o
# -O0 variant (mdsim0): every source-level access of shared variables is seen by the race detector
cc0() { f=$1; o=obj0/$(echo "$f" | tr / _).o
  gcc -w -std=gnu11 -g1 -O0 -fno-pie -U_FORTIFY_SOURCE -fno-stack-protector -fno-omit-frame-pointer -fopenmp -D_OMP_ $SAN $INC -c "$REPO/MDLIB/$f" -o "$o.tmp" && objcopy --redefine-syms=redef "$o.tmp" "$o" && rm -f "$o.tmp"; }
export -f cc0; mkdir -p obj0; rm -f obj0/*.o
{ for f in $SRCS; do echo "cc1 $f"; done; for f in $SRCS; do echo "cc0 $f"; done; } | xargs -P 8 -I{} bash -c '{}' || { echo "mdsim: compilation failed"; exit 3; }
# the repository's own model set-ups (SETS/*.c), as workloads: main renamed, everything else local
rm -rf sets; mkdir sets; cp redef redef_sets; echo "RunMDOODZ sim_run_from_set" >> redef_sets
cs1() { b=$(basename "$1" .c); o=sets/$b.o
  { gcc -w -std=gnu11 -O1 -fno-pie -fno-omit-frame-pointer -U_FORTIFY_SOURCE $INC -Dmain=set_main_$b -c "$1" -o "$o.tmp" && objcopy --keep-global-symbol=set_main_$b --redefine-syms=redef_sets "$o.tmp" "$o"; } 2>/dev/null || rm -f "$o"; rm -f "$o.tmp"; }
export -f cs1
ls "$REPO"/SETS/*.c 2>/dev/null | xargs -r -P 8 -I{} bash -c 'cs1 {}'
{ echo '#include "rt.h"'; for o in sets/*.o; do [ -e "$o" ] && echo "int set_main_$(basename "$o" .o)();"; done
  echo "simset_t sim_sets[] = {"; for o in sets/*.o; do [ -e "$o" ] && b=$(basename "$o" .o) && echo "{\"$b\", set_main_$b},"; done; echo "{0, 0}};"; } > sets_table.c
gcc -O1 -w -fno-pie -I"$HERE" -c sets_table.c -o obj/rt_sets.o
python3 "$HERE/gen_dump.py" "$REPO/MDLIB/include/mdoodz.h" "$HERE/../mdv" > dump.c && gcc -O1 -w -fno-pie $INC -c dump.c -o obj/rt_dump.o
for f in omp io main; do gcc -O2 -g1 -fno-pie -fno-stack-protector -fno-omit-frame-pointer -Wall -Wno-unused -Wno-parentheses -Wno-misleading-indentation $INC -c "$HERE/$f.c" -o "obj/rt_$f.o"; done
gcc -no-pie -o mdsim.new obj/*.o $(ls sets/*.o 2>/dev/null) $H5L -lumfpack -lcholmod -lcxsparse -lamd -lcolamd -lsuitesparseconfig -lblas -llapack -lm
gcc -no-pie -o mdsim0.new obj0/*.o obj/rt_*.o $(ls sets/*.o 2>/dev/null) $H5L -lumfpack -lcholmod -lcxsparse -lamd -lcolamd -lsuitesparseconfig -lblas -llapack -lm
gcc -O2 -w $H5I "$HERE/h5x.c" -o h5x.new $H5L
mv mdsim0.new mdsim0; mv mdsim.new mdsim; mv h5x.new h5x
echo "$KEY" > key
