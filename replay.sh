#!/bin/bash
# replay.sh DIR: re-run the failing cases recorded in a replay directory
# against /repo's current tree. Exit 1 if one still fails.
D=$(cd "$1" && pwd) || exit 2
ID=$(basename "$D" | cut -d- -f1)
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$VERIF/env.sh"
S=$(mktemp -d /tmp/verif-replay.XXXXXX); trap 'rm -rf "$S"' EXIT
(cd "$VERIF/harness" && go test -c -o "$S/h.test" .) || exit 2
(cd /repo && go build -o "$S/ofx" ./cmd/ofx) || exit 2
export VERIF_OFX=$S/ofx VERIF_ID=$ID
cd "$S" && found=0 rc=0
for f in "$D"/*.fail; do
	[ -f "$f" ] || continue
	found=1
	# the file is named TestID_part-timestamp-pid.fail
	part=$(basename "$f" | sed -E "s/^Test${ID}_?//; s/-[0-9]{14}-[0-9]+\.fail\$//")
	VERIF_FAILFILE=$f VERIF_PART=$part ./h.test -test.run "^Test$ID\$" || rc=1
done
[ $found = 1 ] || { echo "no generated case recorded; see $D/log.txt"; "$VERIF/check.sh" "$ID" quick; rc=$?; }
exit $rc
