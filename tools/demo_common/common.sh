# Sourced by demo.sh (cwd /repo, after the official build).  Gives a scratch directory in $T,
# build_grazer -> $T/grazer (the command line program), build_prog SRC OUT (a program linked with the project).
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
T="$(mktemp -d /tmp/grazer_demo_XXXXXX)"
trap 'rm -rf "$T"' EXIT
INC="-I$HERE -I/usr/include/eigen3 -I/opt/vp/ipopt/include/coin-or -I$REPO/Randutils/include"
for d in $(find "$REPO/src" -name '*.hpp' -printf '%h\n' | sort -u); do INC="$INC -I$d"; done
FLAGS="-std=c++17 -O0 -w -fno-pie -no-pie -include $HERE/compat.hpp"
LIBS=$(find "$REPO/_build/src" -name '*.a' | sort)
shared_parts() {
  [ -f "$T/validation.o" ] && return 0
  g++ $FLAGS $INC -c "$REPO/src/Auxillary/json_schema/schema_validation.cpp" -o "$T/validation.o" &
  local a=$!
  g++ $FLAGS $INC -c "$REPO/src/IpoptWrapper/Adaptor.cpp" -o "$T/adaptor.o" &
  local b=$!
  wait $a && wait $b
}
build_prog() {
  shared_parts || { echo "cannot build"; exit 2; }
  g++ $FLAGS $INC "$1" "$T/validation.o" "$T/adaptor.o" -Wl,--start-group $LIBS -Wl,--end-group /opt/vp/ipopt/lib/libipopt.so -lpthread -ldl -o "$2" \
    || { echo "cannot build"; exit 2; }
}
build_grazer() { build_prog "$REPO/src/Grazer/grazer.cpp" "$T/grazer"; }
