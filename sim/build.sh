#!/bin/bash
# build.sh <repo> <outdir> : builds the simulator with the library taken from <repo>'s working tree.
set -e
R=$1; O=$2; S=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
SAN="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -fsanitize=unreachable,return,bool,enum,integer-divide-by-zero -fsanitize-undefined-trap-on-error"
LIB="-std=c++11 -DNDEBUG -I$R $SAN -w"
HAR="-std=c++17 -I$S -O2 -g1 -fsanitize=address -fno-omit-frame-pointer -w"
{
  for f in $(cd "$R" && find netcode -name '*.cc' | sort); do
    echo "g++ $LIB -c $R/$f -o $O/lib_$(echo "$f" | tr / _).o"
  done
  for f in endpoints_cpp endpoints_c; do echo "g++ $LIB -I$S -c $S/$f.cc -o $O/$f.o"; done
  for f in world gen ref ref_peers seams main; do echo "g++ $HAR -c $S/$f.cc -o $O/$f.o"; done
} | xargs -P 12 -I{} sh -c '{} || exit 255'
g++ -fsanitize=address -o "$O/sim" "$O"/*.o -Wl,--wrap=clock_gettime,--wrap=time,--wrap=gettimeofday,--wrap=posix_memalign -lgf_complete -ldl -lpthread
