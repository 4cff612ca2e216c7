#!/bin/bash
# build.sh FLAVOR TARGET...: (re)builds harnesses of /verif against /repo's current working tree.
# FLAVOR main: plain -O1. All output lands in /verif/.build/FLAVOR (ignored by git).
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=gcc CXX=g++
unset CONDA_PREFIX
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VERIF_REPO:-/repo}
F=$1; shift
B=$V/.build/$F
mkdir -p $V/.build
export CCACHE_DIR=$V/.build/ccache CCACHE_MAXSIZE=3G \
  CCACHE_SLOPPINESS=pch_defines,time_macros,include_file_mtime,include_file_ctime CCACHE_COMPRESSLEVEL=1
case $F in
  main) FLAGS="-w -g0 -fpch-preprocess" OPT="-O1 -DNDEBUG" ;;
  asan) FLAGS="-w -g1 -fpch-preprocess" OPT="-O1" ;;
  mc) FLAGS="-w -g0 -fpch-preprocess" OPT="-O1" EXTRA="-DBUILD_SHARED_LIBS=OFF" ;;
  *) echo "unknown flavor $F"; exit 3 ;;
esac
exec 9>$V/.build/$F.lock
flock 9
if [ ! -f $B/build.ninja ]; then
  rm -rf $B
  cmake -S $R -B $B -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS=$FLAGS" \
    "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=$OPT" -DCMAKE_CXX_COMPILER_LAUNCHER=ccache -DCMAKE_C_COMPILER_LAUNCHER=ccache \
    -DVERIF_FLAVOR=$F -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_PREFIX_PATH=/usr/lib/llvm-16 \
    -DCMAKE_MODULE_PATH=$V/cmake -DCMAKE_PROJECT_INCLUDE=$V/cmake/verif.cmake \
    $EXTRA -DENABLE_FOLLY=OFF -DENABLE_SQL=OFF -DENABLE_PYTHON=OFF -DENABLE_BENCHMARKS=OFF -DENABLE_ARMADILLO=ON > $B.cmake.log 2>&1 \
    || { tail -30 $B.cmake.log; exit 3; }
fi
ninja -C $B "$@" > $B.ninja.log 2>&1 || { tail -60 $B.ninja.log; exit 3; }
