#!/bin/bash
# usage: seedrun.sh [id...]   runs the check of each planted bug's property with the bug applied to a copy of /repo,
# which is mounted over /repo in a mount namespace of its own.
# usage: seedrun.sh -p PATCH C01 C02...   runs these checks with the patch applied in the same way (e.g. for
# edits that keep the behaviour).
cd "$(dirname "$0")/.." || exit 1
one() { # label patch property
	local w s r rc
	w=$(mktemp -d /tmp/seedrun.XXXXXX) || exit 3
	cp -a /repo "$w/repo"
	git -C "$w/repo" apply "$(realpath "$2")" || { echo "$1 does not apply"; /bin/rm -rf "$w"; return; }
	s=$SECONDS
	unshare -Urm bash -c 'mount --bind "$1" /repo && VERIF_SEED=1 VERIF_TIER=${VERIF_TIER:-quick} timeout 900 ./run.sh "$2"' - "$w/repo" "$3" >"$w/out" 2>&1; rc=$?
	if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$3" "$w/out"; then r=caught; else r="MISSED rc=$rc"; fi
	echo "$1 $3 $r $((SECONDS-s))s $(grep -m1 ^VIOLATION "$w/out" | cut -c1-150)"
	[ -n "$KEEP" ] && cp "$w/out" "/tmp/seedrun.$3.out"
	/bin/rm -rf "$w"
}
if [ "$1" = -p ]; then
	p=$2; shift 2
	for c in "$@"; do one "$(basename "$p")" "$p" "$c"; done
	exit
fi
ids=("$@"); [ $# -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
	one "$id" "seeded/$id/patch.diff" "$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")"
done
