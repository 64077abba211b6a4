#!/bin/bash
# Builds the QUIC client of the working tree against the stand-ins, with its
# driver, into $1/quic. $1 was built by build.sh.
set -e
B=${1:?build directory}
H=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
D=/opt/vp/deps
export LC_ALL=C.UTF-8
unset CXXFLAGS CFLAGS LDFLAGS CPATH LIBRARY_PATH
O=$B/quicobj
mkdir -p $O
SAN="-fsanitize=address -fno-omit-frame-pointer -g1"
F="-std=c++17 -w -fpermissive -include $D/compat/compat.hpp $SAN -isystem $D/fmt/include -I$H/quic -I$R/bnl/quic/include -I$R/bnl/quic/src -I$B/bnl/quic/include $(cat $B/inc) $(ls -d $B/_deps/*/ | sed 's/^/-isystem /')"
P=()
for f in $(cd $R/bnl/quic/src && find . -name '*.cpp' | sort); do
  o=$O/$(echo $f | tr / _ | sed 's/^\._//').o
  g++ $F -c $R/bnl/quic/src/$f -o $o 2>$o.log & P+=($!)
done
g++ $F -c $H/quicdriver.cpp -o $O/driver.o 2>$O/driver.o.log & P+=($!)
for p in "${P[@]}"; do wait $p || { cat $O/*.log; exit 3; }; done
LB=$(find $B -name 'libbnl-base.*' | head -1)
g++ $SAN $O/*.o $LB -lfmt -o $B/quicdriver 2>$B/quiclink.log || { tail -5 $B/quiclink.log; exit 3; }
