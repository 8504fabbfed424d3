#!/bin/bash
# build.sh OUTDIR DRIVER...   builds the drivers against /repo's working tree, out of tree
set -e
out=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
R=${GINV_REPO:-/repo}
mkdir -p $out/src/util $out/src/ginv $out/obj
cp $R/util/*.h $R/util/*.cpp $out/src/util/
cp $R/ginv/*.h $R/ginv/*.cpp $out/src/ginv/
# VT_PLAIN=1: the configuration without arenas; VT_CHECK_ALLOC=1: allocator.cpp keeps its assertions
if [ -n "$VT_PLAIN" ]; then
printf '#ifndef GINV_UTIL_CONFIG_H\n#define GINV_UTIL_CONFIG_H\n#define GINV_UTIL_GRAPHVIZ\n#define GINV_UTIL_INTEGER_ALLOCATOR\n#endif\n' >$out/src/util/config.h
else
printf '#ifndef GINV_UTIL_CONFIG_H\n#define GINV_UTIL_CONFIG_H\n#define GINV_UTIL_GRAPHVIZ\n#define GINV_UTIL_ALLOCATOR\n#define GINV_UTIL_INTEGER_ALLOCATOR\n#endif\n' >$out/src/util/config.h
fi
# VT_PLAININT=1: integers that live in GMP's own memory
if [ -n "$VT_PLAININT" ]; then sed -i s/GINV_UTIL_INTEGER_ALLOCATOR/GINV_UTIL_INTEGER_GMP/ $out/src/util/config.h; fi
printf '#ifndef GINV_CONFIG_H\n#define GINV_CONFIG_H\n#define GINV_ALLOCATOR\n#endif\n' >$out/src/ginv/config.h
# VT_PICT=1: with the drawing functions
if [ -n "$VT_PICT" ]; then sed -i 's/#define GINV_ALLOCATOR/&\n#define GINV_GRAPHVIZ/' $out/src/ginv/config.h; VT_CFLAGS="${VT_CFLAGS:--O2 -DNDEBUG} -DVT_PICT"; GV="-lgvc -lcgraph"; fi
CF="${VT_CFLAGS:--O2 -DNDEBUG} -w -I$out/src -I$out/src/util -I$out/src/ginv -I$here/harness"
util=$(cd $out/src/util && ls *.cpp); ginv=$(cd $out/src/ginv && ls *.cpp | grep -v '^bpoly\.cpp$' | grep -v '^bmonom\.cpp$')
{
for f in $util; do
u=; [ -n "$VT_CHECK_ALLOC" ] && [ $f = allocator.cpp ] && u=-UNDEBUG
echo "g++ -std=c++11 $CF $u -c $out/src/util/$f -o $out/obj/u_${f%.cpp}.o"; done
case " $* " in *ginv*)
for f in $ginv; do echo "g++ -std=c++11 $CF -c $out/src/ginv/$f -o $out/obj/g_${f%.cpp}.o"; done;; esac
case " $* " in *bmonom*) echo "g++ -std=c++11 $CF -include iostream -c $out/src/ginv/bmonom.cpp -o $out/obj/b_bmonom.o";; esac
for d in "$@"; do echo "g++ -std=c++17 $CF -c $here/harness/$d.cpp -o $out/obj/d_$d.o"; done
} | xargs -d '\n' -P 8 -I{} sh -c '{}'
for d in "$@"; do
  objs="$out/obj/d_$d.o"
  case $d in drv_ginv*) objs="$objs $(ls $out/obj/g_*.o)";; drv_bmonom) objs="$objs $out/obj/b_bmonom.o";; esac
  g++ ${VT_LDFLAGS:-} -o $out/$d $objs $(ls $out/obj/u_*.o) -lgmp $GV
done
