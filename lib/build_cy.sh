#!/bin/bash
# builds the Python binding of $GINV_REPO (or /repo) in $1: ginv.so
set -e
out=$1
R=${GINV_REPO:-/repo}
PY=/usr/bin/python3
mkdir -p $out/src/util $out/src/ginv $out/src/cython $out/obj
cp $R/util/*.h $R/util/*.cpp $out/src/util/
cp $R/ginv/*.h $R/ginv/*.cpp $out/src/ginv/
cp $R/cython/ginv.pyx $out/src/cython/
printf '#ifndef GINV_UTIL_CONFIG_H\n#define GINV_UTIL_CONFIG_H\n#define GINV_UTIL_GRAPHVIZ\n#define GINV_UTIL_ALLOCATOR\n#define GINV_UTIL_INTEGER_ALLOCATOR\n#endif\n' >$out/src/util/config.h
printf '#ifndef GINV_CONFIG_H\n#define GINV_CONFIG_H\n#define GINV_GRAPHVIZ\n#define GINV_ALLOCATOR\n#endif\n' >$out/src/ginv/config.h
INC="-I$out/src -I$out/src/util -I$out/src/ginv $($PY -c 'import sysconfig; print("-I" + sysconfig.get_paths()["include"])')"
(cd $out/src/cython && PYTHONDONTWRITEBYTECODE=1 $PY -c 'import sys; from Cython.Compiler.Main import main; sys.argv = ["cython", "-3", "--cplus", "ginv.pyx", "-o", "ginv.cpp"]; main(command_line=1)' >$out/cython.log 2>&1) || { cat $out/cython.log; exit 1; }
{
echo "g++ -std=c++17 -O1 -fPIC -DNDEBUG -w $INC -c $out/src/cython/ginv.cpp -o $out/obj/c_ginv.o"
for f in $(cd $out/src/util && ls *.cpp); do echo "g++ -std=c++11 -O2 -fPIC -DNDEBUG -w $INC -c $out/src/util/$f -o $out/obj/u_${f%.cpp}.o"; done
for f in $(cd $out/src/ginv && ls *.cpp | grep -v '^bpoly\.cpp$' | grep -v '^bmonom\.cpp$'); do echo "g++ -std=c++11 -O2 -fPIC -DNDEBUG -w $INC -c $out/src/ginv/$f -o $out/obj/g_${f%.cpp}.o"; done
} | xargs -d '\n' -P 8 -I{} sh -c '{}'
g++ -shared -o $out/ginv.so $out/obj/*.o -lgmp -lcgraph -lgvc -Wl,--no-undefined $($PY -c 'import sysconfig; print("-L" + (sysconfig.get_config_var("LIBDIR") or "/usr/lib") + " -lpython" + sysconfig.get_config_var("LDVERSION"))') 2>$out/link.log || g++ -shared -o $out/ginv.so $out/obj/*.o -lgmp -lcgraph -lgvc
(cd $out && $PY -c 'import ginv')
