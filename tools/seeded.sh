#!/bin/bash
# seeded.sh [ID...]: runs the check of each planted bug's property against a
# scratch copy of /repo with the bug applied. JOBS copies at a time.
cd /verif/seeded || exit 2
[ $# = 0 ] && set -- *
one() {
	id=$1
	p=$(python3 -c "import json,sys;print(json.load(open('$id/meta.json'))['property'])")
	d=$(mktemp -d /tmp/seeded.XXXXXX)
	cp -a /repo "$d/repo"; mkdir "$d/verif"
	cp -a /verif/check.sh /verif/sim /verif/known_findings.txt "$d/verif/"
	git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf -- "$d"; return; }
	t=$SECONDS
	out=$(VERIF_REPO=$d/repo bash "$d/verif/check.sh" "$p" 2>&1); rc=$?
	echo "$id rc=$rc $((SECONDS - t))s $(echo "$out" | grep -m1 VIOLATION | head -c 250)"
	[ $rc = 1 ] || echo "$out" | tail -5
	rm -rf -- "$d"
}
n=0
for id in "$@"; do
	one "$id" &
	n=$((n + 1))
	[ $((n % ${JOBS:-2})) = 0 ] && wait
done
wait
