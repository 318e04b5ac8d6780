#!/bin/bash
# Builds LazyFS's sources of the current directory together with demo.cpp and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/o" "$W/s"
I="-I$R/lazyfs/include -I$R/libs/libpcache/include -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB -DSPDLOG_FMT_EXTERNAL"
n=0
for s in $(find "$R/lazyfs/src" "$R/libs/libpcache/src" -name '*.cpp' | sort); do
    n=$((n + 1))
    g++ -std=c++17 -w -O0 $I $(case $s in */lazyfs/src/main.cpp) echo -Dmain=lazyfs_main ;; esac) -c "$s" -o "$W/o/$n.o" &
done
g++ -std=c++17 -w -O0 $I -c "$D/demo.cpp" -o "$W/o/demo.o" &
wait
g++ -o "$W/demo" "$W"/o/*.o -lspdlog -lfmt -lfuse3 -lpthread || { echo "demo does not build"; exit 2; }
timeout 200 "$W/demo" "$W/s"
