#!/bin/bash
# builds the program beside this script against the libraries the repository's build left in bin/Release, and runs it
here=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$work" -delete' EXIT
I="-I$R/include -I$R/src -I$R/deps -I$R/deps/mio/single_include -I$R/deps/stduuid/include -I$R/deps/ghc -I$R/deps/jsoncpp -I$R/deps/cppcodec -I$R/deps/scheduler/include -I$R/deps/reproc/reproc++/include -I$R/_build/deps/reproc/reproc++/include -I$R/deps/reproc/reproc++/src -I$R/deps/bitcoin/include -I$R/deps/chachapoly -I$R/deps/rfc6234 -I$R/tests/framework/include -I$here"
D="-DCIVETWEB_CXX_DLL_IMPORTS -DCIVETWEB_DLL_IMPORTS -DFMT_HEADER_ONLY=1 -DUNICODE -D_SILENCE_ALL_CXX17_DEPRECATION_WARNINGS"
L=/usr/lib/x86_64-linux-gnu
g++ -std=c++17 -O1 -DNDEBUG -w -include cstdint $D $I "$here/demo.cpp" -o "$work/demo" -no-pie \
  -Wl,--unresolved-symbols=ignore-all -Wl,--start-group $R/bin/Release/lib*.a $R/_build/deps/reproc/reproc/lib/libreproc.a $R/_build/deps/reproc/reproc++/lib/libreproc++.a \
  $L/librocksdb.a -Wl,--end-group $L/libgflags.so.2.2.2 $L/libsnappy.so.1.1.10 -lbz2 -llz4 -lzstd -lminizip -lz $L/libroaring.so.0.2.66 \
  $L/libcivetweb-cpp.so.1.15.0 $L/libcivetweb.so.1.15.0 -lsodium -lpthread -ldl -luuid || exit 2
cd "$work" && HOME="$work" timeout 200 ./demo
