#!/bin/bash
# build.sh <repo> <outdir> : the library of <repo>'s working tree with a scheduling point in every basic block and at every memory access.
set -e
R=$1; O=$2; S=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
SAN="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -fsanitize-coverage=trace-pc,trace-loads,trace-stores"
LIB="-std=c++11 -DNDEBUG -I$R $SAN -w"
HAR="-std=c++17 -I$S -I$S/../sim -I$S/../common -O2 -g1 -fsanitize=address -fno-omit-frame-pointer -w"
{
  for f in $(cd "$R" && find netcode -name '*.cc' | sort); do
    echo "clang++ $LIB -c $R/$f -o $O/lib_$(echo "$f" | tr / _).o"
  done
  for f in endpoints_cpp endpoints_c; do echo "clang++ $LIB -I$S/../sim -c $S/../sim/$f.cc -o $O/$f.o"; done
  echo "clang++ $HAR -c $S/../sim/seams.cc -o $O/seams.o"
  echo "clang++ $HAR -c $S/main.cc -o $O/main.o"
} | xargs -P 12 -I{} sh -c '{} || exit 255'
clang++ -fsanitize=address -o "$O/simthreads" "$O"/*.o -Wl,--wrap=clock_gettime,--wrap=time,--wrap=gettimeofday,--wrap=posix_memalign,--wrap=gf_init_easy -lgf_complete -ldl -lpthread
