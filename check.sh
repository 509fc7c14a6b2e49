#!/bin/bash
# check.sh ID [quick|thorough]: build the harness against /repo's working tree
# and decide one property. Exit 0 held, 1 violated, 2 no answer.
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ID=$ID VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
. "$VERIF/env.sh"

SCRATCH=$(mktemp -d /tmp/verif-$ID.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export TMPDIR=$SCRATCH

fail() { echo "check $ID: $*" >&2; exit 2; }

RACE=
[ "$ID" = C23 ] && RACE=-race
cd "$VERIF/harness" || fail "no harness"
go test -c $RACE -o "$SCRATCH/h.test" . >"$SCRATCH/build.log" 2>&1 || { cat "$SCRATCH/build.log" >&2; fail "the harness does not build against /repo"; }
case $ID in C17|C27|C28|C29|C30|C31|C33|C35)
	(cd /repo && go build -o "$SCRATCH/ofx" ./cmd/ofx) >"$SCRATCH/build.log" 2>&1 || { cat "$SCRATCH/build.log" >&2; fail "cmd/ofx does not build"; }
	export VERIF_OFX=$SCRATCH/ofx ;;
esac

mkdir -p "$SCRATCH/run" "$VERIF/evidence"
cd "$SCRATCH/run" || exit 2
export VERIF_EVIDENCE=$VERIF/evidence/$ID.json VERIF_STATUS=$SCRATCH/status
[ -n "$VERIF_SHARDS" ] || export VERIF_SHARDS=8
TIMEOUT=840
[ "$TIER" = thorough ] && TIMEOUT=3000
timeout -k 10 $TIMEOUT "$SCRATCH/h.test" -test.run "^Test$ID\$" -test.timeout 0 >"$SCRATCH/log" 2>&1
RC=$?

violation() {
	mkdir -p "$VERIF/replays"
	local d="$VERIF/replays/$ID-$(date +%Y%m%d-%H%M%S)-$$"
	mkdir -p "$d"
	cp "$SCRATCH/log" "$d/log.txt"
	find "$SCRATCH/run" -name '*.fail' -exec cp {} "$d/" \; 2>/dev/null
	[ -d "$SCRATCH/run/testdata/fuzz" ] && cp -r "$SCRATCH/run/testdata/fuzz" "$d/"
	git -C /repo diff >"$d/repo.diff" 2>/dev/null
	tail -c 6000 "$SCRATCH/log"
	echo "reason: $1"
	echo "VIOLATION property=$ID replay=$d"
	exit 1
}

# The thorough check of C06 goes on with coverage-guided fuzzing.
if [ "$ID/$TIER" = C06/thorough ] && [ "$RC" = 0 ] && [ -z "$VERIF_CASES" ]; then
	mkdir -p "$SCRATCH/fuzz" "$SCRATCH/run/fuzz" && cd "$SCRATCH/run/fuzz" || exit 2
	if ! (cd "$VERIF/harness" && go test -c -fuzz FuzzC06 -o "$SCRATCH/fuzz.test" .) >"$SCRATCH/build.log" 2>&1; then
		cat "$SCRATCH/build.log" >&2
		fail "the fuzz target does not build"
	fi
	VERIF_STATUS= VERIF_EVIDENCE= VERIF_SHARDS=1 timeout -k 10 1500 "$SCRATCH/fuzz.test" -test.run '^$' -test.fuzz '^FuzzC06$' \
		-test.fuzztime "${VERIF_FUZZTIME:-600s}" -test.fuzzminimizetime 2s -test.fuzzcachedir "$SCRATCH/fuzz" -test.timeout 0 >"$SCRATCH/fuzz.log" 2>&1
	FRC=$?
	grep -a '^fuzz:' "$SCRATCH/fuzz.log" | tail -1 | sed 's/^/note: /'
	if [ $FRC != 0 ]; then
		cat "$SCRATCH/fuzz.log" >>"$SCRATCH/log"
		# a failing input is in testdata, or the process died in the code under test
		if [ -d testdata/fuzz ]; then
			mkdir -p "$SCRATCH/run/testdata" && cp -r testdata/fuzz "$SCRATCH/run/testdata/"
			violation "coverage-guided fuzzing found a failing input"
		fi
		tail -c 3000 "$SCRATCH/fuzz.log" >&2
		fail "fuzzing ended with $FRC"
	fi
	# what the fuzzer ran belongs to the evidence, too
	python3 - "$VERIF_EVIDENCE" "$SCRATCH/fuzz.log" <<'EOF'
import json, re, sys
p, log = sys.argv[1:]
m = re.findall(r"^fuzz: elapsed: (\S+), execs: (\d+).*?(?:total: (\d+))?\)?$", open(log, errors="replace").read(), re.M)
if m:
    e = json.load(open(p))
    c = e["coverage"]
    c["coverage_guided"] = {"elapsed": m[-1][0], "executions": int(m[-1][1]), "corpus": int(m[-1][2] or 0)}
    c["cases_by_part"]["coverage-guided"] = int(m[-1][1])
    c["evaluations"] += int(m[-1][1])
    json.dump(e, open(p, "w"), indent=1)
EOF
fi

[ -f "$VERIF/known_findings.txt" ] && grep "^KNOWN-FINDING: property=$ID " "$VERIF/known_findings.txt"

STATUS=
[ -f "$SCRATCH/status" ] && STATUS=$(cat "$SCRATCH/status")
case $STATUS in
violation*) violation "$STATUS" ;;
ok)
	if [ $RC = 0 ]; then
		grep -a '^note:' "$SCRATCH/log"
		echo "property $ID held ($TIER): $(python3 -c "import json;c=json.load(open('$VERIF_EVIDENCE'))['coverage'];print(c['evaluations'],'cases,',c['distinct_nontrivial'],'distinct non-trivial')" 2>/dev/null)"
		exit 0
	fi ;;
esac
# The process died without reporting: a crash inside the code under test is a
# violation, anything else is a failure of the check.
if grep -aqE '^(panic:|fatal error:|runtime: goroutine stack exceeds|WARNING: DATA RACE)' "$SCRATCH/log" && grep -aq 'github.com/aclindsa/' "$SCRATCH/log"; then
	violation "the process crashed in the code under test"
fi
tail -c 6000 "$SCRATCH/log" >&2
fail "no result (exit $RC)"
