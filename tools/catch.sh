#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run its property's quick
# check, undo it, and say whether the check caught it.
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
	prop=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
	s=$(date +%s)
	VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.sh "${PROP:-$prop}" >/tmp/catch.$id 2>&1; rc=$?
	git -C /repo checkout -q -- .
	if [ $rc = 1 ] && grep -q "^VIOLATION property=${PROP:-$prop} " /tmp/catch.$id; then
		echo "$id ${PROP:-$prop} CAUGHT ($(( $(date +%s) - s )) s)"
	else
		echo "$id ${PROP:-$prop} MISSED rc=$rc ($(( $(date +%s) - s )) s)"
	fi
done
