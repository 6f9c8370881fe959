#!/bin/bash
# check.sh ID [quick|thorough] [engine options]: rebuilds what the check needs from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
[ -f "checks/$ID.cpp" ] || { echo "no such check: $ID" >&2; exit 2; }
mkdir -p build evidence
bash harness/build.sh build || { echo "build of /repo failed" >&2; exit 2; }
(
	flock 9
	S=$(cat checks/$ID.cpp harness/*.hpp harness/shim.h | sha256sum)
	if [ ! -x build/$ID ] || [ "$(cat build/$ID.stamp 2>/dev/null)" != "$S" ]; then
		g++ -std=c++17 -O1 -g -w -rdynamic -o build/$ID.new checks/$ID.cpp -ldl || exit 2
		mv build/$ID.new build/$ID && echo "$S" > build/$ID.stamp
	fi
) 9>build/$ID.lock || exit 2
export ASAN_OPTIONS=detect_leaks=0:verify_asan_link_order=0:allocator_may_return_null=1:abort_on_error=0
LD_PRELOAD=$(gcc -print-file-name=libasan.so) exec build/$ID --tier "$TIER" --lib "$PWD/build" --evidence "evidence/$ID.json" \
	--known known-findings.txt --replay-dir "$PWD/replays" "$@"
