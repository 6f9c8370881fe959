#!/bin/bash
# build.sh OUTDIR: builds every variant of /repo's library (with the shim) as a shared object in OUTDIR.
# Rebuilds only when a source of /repo or of the harness changed.
set -eu
OUT=$1
SRC=${DL_REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
exec 9>"$OUT/.lock"
flock 9
STAMP=$( (cat "$SRC"/*.c "$SRC"/*.h "$SRC"/DuckLib/*.c "$SRC"/DuckLib/*.h "$HERE"/*.c "$HERE"/*.h "$HERE"/build.sh; ls "$SRC"/*.c "$SRC"/DuckLib/*.c) | sha256sum)
if [ -f "$OUT/stamp" ] && [ "$(cat "$OUT/stamp")" = "$STAMP" ]; then exit 0; fi
rm -f "$OUT"/*.so
ASAN="-fsanitize=address -fno-omit-frame-pointer"
build() { # name san defs...
	local name=$1 san=$2
	shift 2
	local flags="-std=c99 -D_GNU_SOURCE -g -O1 -w -fPIC -shared -fvisibility=default -DDUCKVM_ALLOCATION_HOOK -Wl,-Bsymbolic"
	[ "$san" = asan ] && flags="$flags $ASAN"
	gcc $flags "$@" -I"$SRC" -I"$SRC/DuckLib" -I"$HERE" "$SRC"/*.c "$SRC"/DuckLib/*.c "$HERE"/shim.c "$HERE"/libshim.c "$HERE"/capishim.c -lm -o "$OUT/$name.so" 2>"$OUT/$name.log" || { cat "$OUT/$name.log" >&2; return 1; }
}
pids=()
for san in asan plain; do
	s=""; [ $san = plain ] && s="-plain"
	build "default$s" $san -DUSE_STDLIB & pids+=($!)
	build "inference$s" $san -DUSE_STDLIB -DUSE_PARENTHESIS_INFERENCE & pids+=($!)
	build "portable$s" $san -DUSE_DUCKLIB_MALLOC & pids+=($!)
	build "portable-inference$s" $san -DUSE_DUCKLIB_MALLOC -DUSE_PARENTHESIS_INFERENCE & pids+=($!)
	build "noopt$s" $san -DUSE_STDLIB -DNO_OPTIMIZE_JUMPS -DNO_OPTIMIZE_PUSHPOPS & pids+=($!)
done
# Allocation failures (P20): every request of the library goes through the shim.
WRAP="-DSHIM_FAULTS -Wl,--wrap=malloc -Wl,--wrap=realloc -Wl,--wrap=calloc"
build faults asan -DUSE_STDLIB $WRAP & pids+=($!)
build faults-inference asan -DUSE_STDLIB -DUSE_PARENTHESIS_INFERENCE $WRAP & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
echo "$STAMP" > "$OUT/stamp"
