#!/bin/bash
# usage: run.sh <property> [engine flags]
#   Decides one property against the current tree of /repo.
# usage: run.sh --replay <file>
#   Replays a reported violation natively against the current tree of /repo.
cd "$(dirname "$0")" || exit 3
root=$PWD
. ./env.sh
mkdir -p bin evidence replays
runner=$(mktemp "$root/bin/runner.XXXXXX") || exit 3
trap '/bin/rm -f "$runner"' EXIT
if ! (cd harness && go build -o "$runner" ./runner); then
	echo "run.sh: the code under test does not build with the harness" >&2
	exit 3
fi
if [ "$1" = --replay ]; then
	VERIF_TRACE=1 "$runner" "$(realpath "$2")"
	exit $?
fi
id=$1
shift
if [ ! -x bin/engine ] || [ -n "$(find engine -name '*.go' -newer bin/engine -print -quit)" ]; then
	eng=$(mktemp "$root/bin/engine.XXXXXX") || exit 3
	(cd engine && go build -o "$eng" .) && mv "$eng" bin/engine || exit 3
fi
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
budget=300s
[ "$tier" = thorough ] && budget=780s
bin/engine -prop "$id" -tier "$tier" -seed "$seed" -budget "${VERIF_BUDGET:-$budget}" -harness "$root/harness" -runner "$runner" \
	-known "$root/KNOWN_FINDINGS" -replays "$root/replays" -evidence "$root/evidence/$id.json" "$@"
