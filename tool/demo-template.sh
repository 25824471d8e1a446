#!/bin/bash
# builds demo.cpp against the library built in /repo/_build and runs it (cwd: /repo)
here=$(cd "$(dirname "$0")" && pwd); R=$PWD
w=$(mktemp -d) || exit 99; trap 'rm -rf "$w"' EXIT
inc="-I$R/_build/src/CglCommon"; for d in $R/src/*/; do inc="$inc -I$d"; done
libs=$(ls $R/_build/src/Cgl*/.libs/libCgl*.a $R/_build/src/CglCommon/libvpCommon.a 2>/dev/null)
extra=; [ -e "$here/sources" ] && for f in $(cat "$here/sources"); do extra="$extra $R/$f"; done
g++ -g -O1 -w -DHAVE_CONFIG_H -DNDEBUG $CXXEXTRA $inc $(pkg-config --cflags osi-clp) "$here/demo.cpp" $extra -o "$w/demo" \
  -Wl,--start-group $libs -Wl,--end-group $(pkg-config --libs osi-clp) -Wl,--gc-sections || exit 98
cd "$w"
if [ -e "$here/valgrind" ]; then timeout 250 valgrind -q --leak-check=full --errors-for-leak-kinds=definite --error-exitcode=9 ./demo "$(pkg-config --variable=datadir coindatasample)"
else timeout 250 ./demo "$(pkg-config --variable=datadir coindatasample)"; fi
