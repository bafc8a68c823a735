#!/bin/bash
# Builds the engine from the current directory with small replacements of its two
# libraries and runs demo.cpp against it.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
FL="-std=c++17 -O0 -w -pthread -DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 -DPROJECT_ROOT=$R -DKVS_MAX_PARALLEL_THREADS=32 -DYAKUSHIMA_MAX_PARALLEL_SESSIONS=300 -DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPARAM_SNAPSHOT_EPOCH=25 -DPARAM_CHECKPOINT_REST_EPOCH=40 -DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000 -DPARAM_CPR_DIFF_SET_RESERVE_NUM=0"
if [ -f "$D/pwal" ]; then
    FL="$FL -DPWAL -DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1 -DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1 -DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1"
fi
if [ -f "$D/asan" ]; then FL="$FL -fsanitize=address"; fi
INC="-I$R/src -I$R/src/include -I$R/include -I$R/third_party -I$D/standin"
{
    find "$R/src" -name '*.cpp' | sort
    find "$D/standin/src" -name '*.cpp' | sort
    echo "$D/demo.cpp"
} | if [ -f "$D/pwal" ]; then cat; else grep -v -e '/datastore/limestone/' -e '/ls_core.cpp'; fi > "$W/list"
i=0
while read -r f; do
    i=$((i + 1))
    echo "$f $W/$i.o"
done < "$W/list" > "$W/jobs"
xargs -P 8 -L 1 sh -c 'g++ '"$FL $INC"' -c "$0" -o "$1"' < "$W/jobs" || { echo "does not compile"; exit 3; }
g++ -pthread $FL "$W"/*.o -lglog -lboost_filesystem -lboost_system -ltbb -lpthread -latomic -ldl -o "$W/demo" || { echo "does not link"; exit 3; }
mkdir "$W/scratch"
cd "$W/scratch" || exit 2
timeout 150 "$W/demo" "$W/scratch"
rc=$?
echo "demo exit $rc"
exit $rc
