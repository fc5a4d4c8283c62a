#!/bin/sh
# Builds the two Lua runtimes into $1 (default: /verif/build/lua)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/lua}
mkdir -p "$out"
stamp=$(cat "$here"/server.c "$here"/build.sh "$here"/src/*.[ch] | sha256sum)
if [ -x "$out/vm51" ] && [ -x "$out/vm50" ] && [ "$(cat "$out/stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
core="lapi lcode ldebug ldo ldump lfunc lgc llex lmem lobject lopcodes lparser lstate lstring ltable ltm lundump lvm lzio lauxlib lbaselib lmathlib lstrlib ltablib"
files="$here/server.c"
for f in $core; do files="$files $here/src/$f.c"; done
CF="-O1 -g -w -include assert.h -Dlua_assert=assert -DLUA_USE_APICHECK -fno-omit-frame-pointer -fsanitize=address,bounds,null,alignment,shift-exponent,integer-divide-by-zero,unreachable,bool,enum -fno-sanitize-recover=all"
[ "$VP_PLAIN" = 1 ] && CF="-O2 -w"
tmp=$(mktemp -d "$out/tmp.XXXXXX")
gcc $CF -I"$here" $files -o "$tmp/vm51" -lm &
p1=$!
gcc $CF -DLUA50VM -I"$here" $files -o "$tmp/vm50" -lm &
p2=$!
wait $p1; wait $p2
mv "$tmp/vm51" "$out/vm51"; mv "$tmp/vm50" "$out/vm50"
rmdir "$tmp"
printf '%s\n' "$stamp" > "$out/stamp"
