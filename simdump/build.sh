#!/bin/bash
# build.sh <repo> <outdir> : the library of <repo>'s working tree with packet dumping enabled, and the replay tool.
set -e
R=$1; O=$2; S=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
SAN="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern"
BASE="-std=c++11 -DNDEBUG -I$R $SAN -w"
LIB="$BASE -DNTC_DUMP_PACKETS -DNTC_DUMP_PACKETS_FILE=::sim_dump_path() -include $S/path.hh"
HAR="-std=c++17 -I$S -I$S/../sim -I$S/../common -O2 -g1 -fsanitize=address -fno-omit-frame-pointer -w"
{
  for f in $(cd "$R" && find netcode -name '*.cc' | sort); do
    echo "g++ $LIB -c $R/$f -o $O/lib_$(echo "$f" | tr / _).o"
  done
  for f in endpoints_cpp endpoints_c; do echo "g++ $LIB -I$S/../sim -c $S/../sim/$f.cc -o $O/$f.o"; done
  echo "g++ $LIB -I$S -c $S/reader.cc -o $O/reader.o"
  echo "g++ $BASE -include $S/spy.hh -c $R/tools/replay.cc -o $O/replay.o"
  echo "g++ $HAR -c $S/../sim/seams.cc -o $O/seams.o"
  echo "g++ $HAR -c $S/main.cc -o $O/main.o"
} | sed 's/::sim_dump_path()/"::sim_dump_path()"/g' | xargs -P 12 -d '\n' -I{} sh -c '{} || exit 255'
g++ -fsanitize=address -o "$O/simdump" "$O"/*.o -Wl,--wrap=clock_gettime,--wrap=time,--wrap=gettimeofday,--wrap=posix_memalign -lgf_complete -ldl -lpthread
