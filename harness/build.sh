#!/bin/bash
# Builds /repo's working tree (libraries and QIF tools, with AddressSanitizer)
# and the conformance driver into $1, outside the source tree.
set -e
B=${1:?output directory}
H=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
D=/opt/vp/deps
export CC=gcc CXX=g++ LC_ALL=C.UTF-8
unset CXXFLAGS CFLAGS LDFLAGS CPATH LIBRARY_PATH
SAN="-fsanitize=address -fno-omit-frame-pointer -g1"
mkdir -p $B/_deps/outcome $B/_deps/doctest
ln -sfn $D/outcome/outcome-basic.hpp $B/_deps/outcome/outcome-basic.hpp
ln -sfn $D/doctest/doctest.h $B/_deps/doctest/doctest.h
cmake -S $R -B $B -G Ninja \
  -DCMAKE_BUILD_TYPE=Debug \
  "-DCMAKE_CXX_FLAGS=-include $D/compat/compat.hpp $SAN" \
  "-DCMAKE_CXX_FLAGS_DEBUG=" \
  -DBNL_TEST=ON -DBNL_INSTALL=OFF \
  -DFETCHCONTENT_FULLY_DISCONNECTED=ON \
  -DFETCHCONTENT_SOURCE_DIR_FMT=$D/fmt \
  -DFETCHCONTENT_SOURCE_DIR_XXHASH=$D/xxhash \
  -DFETCHCONTENT_SOURCE_DIR_NGTCP2=$D/ngtcp2 \
  -DFETCHCONTENT_SOURCE_DIR_BORINGSSL=$D/boringssl >$B/cmake.log 2>&1 || { cat $B/cmake.log; exit 3; }
INC="-I$R/bnl/base/include -I$R/bnl/http3/include -I$R/bnl/log/include -I$B/bnl/base/include -I$B/bnl/http3/include -I$B/bnl/log/include -I$B/bnl/base -I$B/bnl/http3"
echo "$INC" >$B/inc
(g++ -std=c++17 -O1 -include $D/compat/compat.hpp $SAN -isystem $D/fmt/include $INC $(ls -d $B/_deps/*/ | sed 's/^/-isystem /') -c $H/driver.cpp -o $B/driver.o 2>$B/driver.log) & p=$!
ninja -C $B bnl-base bnl-http3 bnl-log bnl-http3-qpack-interop-encode bnl-http3-qpack-interop-decode >$B/ninja.log 2>&1 || { cat $B/ninja.log; exit 3; }
wait $p || { cat $B/driver.log; exit 3; }
L=$(find $B -name 'libbnl-http3.*' ! -name '*.o' | head -1)
LB=$(find $B -name 'libbnl-base.*' | head -1)
LL=$(find $B -name 'libbnl-log.*' | head -1)
g++ $SAN $B/driver.o $L $LL $LB -lfmt -o $B/driver 2>$B/link.log || { tail -5 $B/link.log; exit 3; }
