#!/bin/bash
# Run in a built repository. Compiles its sources with demo.cpp; exit 0 if the property holds.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$T"' EXIT
F="-m32 -std=c++17 -O0 -g -fno-omit-frame-pointer -D_GNU_SOURCE -fsingle-precision-constant -w -DCONFIG_C3P_CBOR -DCONFIG_C3P_M2M_SUPPORT -DCONFIG_C3P_IMG_SUPPORT -DCONFIG_C3P_TRACE_ENABLED -Isrc"
export F T
find src -name '*.cpp' -not -path 'src/Meta/*' -not -path '*/LinkUtils/DataSharing.cpp' -not -path '*/MapFileParser/*' | sort |
  xargs -P8 -I{} bash -c 'g++ $F -fno-rtti -fno-exceptions -ffunction-sections -fdata-sections -c {} -o $T/$(echo {} | tr / _).o 2>$T/err.$$ || touch $T/skip.$$'
rm -f "$T"/lib.a; ar crs "$T/lib.a" "$T"/*.o || exit 9
g++ $F -fno-rtti -I"$H" -o "$T/demo" "$H/demo.cpp" -Wl,--gc-sections -Wl,--start-group "$T/lib.a" -Wl,--end-group -lm 2>"$T/link.err" || { tail -20 "$T/link.err"; exit 9; }
cd "$T" && timeout 120 ./demo
