#!/bin/bash
# builds demo.cpp against the libraries /repo's build made and runs it: 0 = the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); out=$(mktemp -d) || exit 3; trap 'rm -rf "${out:?}"' EXIT
L=$repo/_build/src
g++ -std=c++11 -O1 -w -pthread -D_DEFAULT_SOURCE -D_GNU_SOURCE -DNDEBUG -I"$here" -I"$repo/src" -I"$repo/include" -I"$repo/src/Platform/Linux" -I"$repo/src/Platform/Posix" -I"$repo/external" -I"$repo/_build/version" -I"$repo/_build" "$here/demo.cpp" -o "$out/demo" \
  -Wl,--start-group $(ls $L/*.a) -Wl,--end-group $(ls $repo/_build/external/miniupnpc/*.a 2>/dev/null) -lboost_system -lboost_filesystem -lboost_thread -lboost_date_time -lboost_chrono -lboost_regex -lboost_serialization -lboost_program_options -lresolv -lpthread || exit 3
cd "$out" && timeout 250 ./demo
