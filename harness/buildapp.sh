#!/bin/bash
# Builds the HTTP/3 client program of the working tree against the stand-ins, with
# its driver, into $1/appdriver. $1 was built by build.sh and buildquic.sh.
set -e
B=${1:?build directory}
H=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
D=/opt/vp/deps
A=$R/bnl/http3/app/endpoint
export LC_ALL=C.UTF-8
unset CXXFLAGS CFLAGS LDFLAGS CPATH LIBRARY_PATH
O=$B/appobj
mkdir -p $O
SAN="-fsanitize=address -fno-omit-frame-pointer -g1"
F="-std=c++17 -w -fpermissive -include $D/compat/compat.hpp -include algorithm -include cassert -include cstring $SAN -isystem $D/fmt/include -I$H/quic -I$A -I$R/bnl/quic/include -I$B/bnl/quic/include $(cat $B/inc) $(ls -d $B/_deps/*/ | sed 's/^/-isystem /')"
P=()
for f in $(cd $A && find . -name '*.cpp' | sort); do
  o=$O/$(echo $f | tr / _ | sed 's/^\._//').o
  g++ $F -Dmain=bnl_client_main -c $A/$f -o $o 2>$o.log & P+=($!)
done
g++ $F -c $H/appdriver.cpp -o $O/driver.o 2>$O/driver.o.log & P+=($!)
for p in "${P[@]}"; do wait $p || { cat $O/*.log; exit 3; }; done
lib() { find $B -name "libbnl-$1.*" ! -name '*.o' | head -1; }
g++ $SAN $O/*.o $(ls $B/quicobj/*.o | grep -v /driver.o) $(lib http3) $(lib log) $(lib base) -lfmt -o $B/appdriver 2>$B/applink.log || { tail -5 $B/applink.log; exit 3; }
