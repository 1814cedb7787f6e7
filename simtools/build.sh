#!/bin/bash
# build.sh <repo> <outdir> : the proxy and the forwarder of <repo>'s working tree over a virtual kernel.
set -e
R=$1; O=$2; S=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
SAN="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern"
TOOL="-std=c++11 -DNDEBUG -I$R $SAN -w"
HAR="-std=c++17 -I$S -I$S/../common -O2 -g1 -fsanitize=address -fno-omit-frame-pointer -w"
{
  for f in $(cd "$R" && find netcode -name '*.cc' | sort); do
    echo "g++ $TOOL -c $R/$f -o $O/lib_$(echo "$f" | tr / _).o"
  done
  echo "g++ $TOOL -Dmain=proxy_main -c $R/tools/lossy_proxy.cc -o $O/proxy.o"
  echo "g++ $TOOL -Dmain=forwarder_main -c $R/tools/source_forwarder.cc -o $O/forwarder.o"
  for f in kernel main; do echo "g++ $HAR -c $S/$f.cc -o $O/$f.o"; done
} | xargs -P 12 -I{} sh -c '{} || exit 255'
g++ -fsanitize=address -o "$O/simtools" "$O"/*.o -lgf_complete -ldl -lpthread
