#!/bin/bash
# builds the demonstration against the library of the working directory, in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
S=$R/lib/SDDS
g++ -std=c++11 -O1 -w -fopenmp -I"$R/_build" -I"$R/src" -I/usr/include/eigen3 -I/usr/include/hdf5/serial -I"$S" \
  -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi \
  "$D/demo.cpp" -o "$W/demo" -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial "$R/_build/libTEUFELlib.a" \
  /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so \
  -lpugixml -lmuparser "$S/libSDDS1.a" "$S/libmdblib.a" "$S/libmdbcommon.a" "$S/liblzma.a" -lz -lm -ldl -lpthread || exit 9
cd "$W" && ./demo
