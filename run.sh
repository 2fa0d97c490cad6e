#!/bin/bash
# usage: run.sh <property id> [quick|thorough]     run.sh replay <file>
# Builds the checker against /repo's working tree and runs one check. Exit 0: held, 1: VIOLATION.
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")" && pwd)
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
if [ "$ID" = replay ]; then
	case "$2" in /*) F=$2 ;; *) F="$PWD/$2" ;; esac
	PROP=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$F" | head -1)
else
	PROP=$ID
fi
T=$(mktemp -d "${TMPDIR:-/tmp}/xpdfmc.XXXXXX") || exit 2
export TMPDIR=$T
cleanup() { chmod -R u+rwx "$T" 2>/dev/null; rm -rf "$T"; }
trap cleanup EXIT
cd "$V/mc" || exit 2
# C28 runs under the race detector, with scheduling points; some others want the order of iterating over maps
FLAGS= POINTS= INSTR=
case "$PROP" in
C28) INSTR=1 POINTS=-points FLAGS="-race -gcflags=all=-d=checkptr=0" ;;
C18 | C19 | C23) INSTR=1 ;;
esac
export GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
OK=
if [ -n "$INSTR" ]; then
	mkdir "$T/ov"
	if go build -buildvcs=false -o "$T/instr" ./cmd/instr && "$T/instr" $POINTS -out "$T/ov" &&
		go build -buildvcs=false $FLAGS -overlay "$T/ov/overlay.json" -o "$T/xpdfmc" ./cmd/xpdfmc; then
		OK=1
	else
		echo "note: the code cannot be instrumented; exploring it as it is"
	fi
fi
if [ -z "$OK" ]; then
	go build -buildvcs=false $FLAGS -o "$T/xpdfmc" ./cmd/xpdfmc || { echo "the checker cannot be built against /repo"; exit 2; }
fi
if [ "$ID" = replay ]; then
	"$T/xpdfmc" case -verif "$V" -scratch "$T" -replay "$F"
	exit $?
fi
"$T/xpdfmc" run -id "$ID" -tier "$TIER" -verif "$V"
exit $?
