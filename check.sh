#!/bin/bash
# check.sh ID [quick|thorough]: builds the monitors and the code under test from /repo's working tree, runs one property.
# exit 0: held on everything observed; 1: VIOLATION line printed; anything else: no answer (could not build, nothing observed).
ID=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=0
export HOME=${HOME:-/root}
TMP=$(mktemp -d /tmp/modesverif.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
export TMPDIR=$TMP
AUX=
if [ "$ID" = C27 ]; then
	(cd /repo && go build -o "$TMP/modes" ./cmd) >"$TMP/log" 2>&1 || { cat "$TMP/log" >&2; echo "check.sh: the tool does not build" >&2; exit 2; }
	AUX=$TMP/modes
fi
GUIDED=1 # a second build, with instrumented the edges and comparisons of the code under test, for the guided phase
case $ID in C25 | C27 | C28 | C29) GUIDED= ;; esac
GUIDE=
[ -n "$GUIDED" ] && (cd "$HERE/harness" && go build -tags guided -gcflags='github.com/twuillemin/modes/...=-d=libfuzzer' -o "$TMP/guided" .) >"$TMP/log" 2>&1 && GUIDE=$TMP/guided
(cd "$HERE/harness" && go build -o "$TMP/harness" .) >"$TMP/log" 2>&1 ||
	{ cat "$TMP/log" >&2; echo "check.sh: the monitors do not build against /repo" >&2; exit 2; }
if [ "$ID" = C25 ]; then # concurrent executions run under the race detector, the others without
	AUX=$TMP/harness-plain
	mv "$TMP/harness" "$AUX"
	(cd "$HERE/harness" && CGO_ENABLED=1 go build -race -o "$TMP/harness" .) >"$TMP/log" 2>&1 ||
		{ cat "$TMP/log" >&2; echo "check.sh: the monitors do not build with -race" >&2; exit 2; }
fi
second() { # builds the monitors, the library and the tool for 386, if that runs here
	(cd "$HERE/harness" && GOARCH=386 go build -o "$TMP/harness386" .) >"$TMP/log" 2>&1 && "$TMP/harness386" -h >/dev/null 2>&1
	[ $? = 0 ] || { echo "check.sh: no second platform" >&2; return 1; }
	mv "$TMP/harness386" "$TMP/harness"
	[ "$ID" != C27 ] || (cd /repo && GOARCH=386 go build -o "$TMP/modes" ./cmd) >"$TMP/log" 2>&1
}
if [ -n "$REPLAY" ]; then
	if grep -q '"goarch": "386"' "$REPLAY"; then second || exit 2; fi
	"$TMP/harness" -replay "$REPLAY" -out "$HERE" -aux "$AUX"
else
	"$TMP/harness" -prop "$ID" -tier "$TIER" -seed "${VERIF_SEED:-1}" -out "$HERE" -aux "$AUX" -guide "$GUIDE"
	R=$?
	if [ $R = 0 ] && [ "$TIER" = thorough ] && [ "$ID" != C25 ] && second; then # the quick blocks where an int has 32 bits
		"$TMP/harness" -prop "$ID" -tier quick -seed "${VERIF_SEED:-1}" -out "$HERE" -aux "$AUX" -second
		R=$?
	fi
	exit $R
fi
