#!/bin/bash
# check.sh PROPERTY [quick|thorough]    decide one property on /repo's working tree
# check.sh --replay FILE                run a replay file again (exit 1 if it fails as recorded)
# check.sh --setup                      build only
# exit 0: held on everything explored; 1: violated (VIOLATION line); 3: no answer
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on
unset GODEBUG GOGC GOMEMLIMIT GOMAXPROCS
mkdir -p "$VERIF/.build" || exit 3
B=$(mktemp -d "$VERIF/.build/run.XXXXXX") || exit 3
case $B in "$VERIF"/.build/run.*) ;; *) exit 3;; esac
trap 'rm -rf -- "$B"' EXIT
trap 'exit 3' INT TERM
build() {
	(cd "$VERIF/sim" && go build -o "$B/instrument" ./cmd/instrument) || { echo "check error: instrumenter does not build" >&2; return 3; }
	"$B/instrument" -src "$REPO" -out "$B/tree" -sim "$VERIF/sim" || { echo "check error: instrumentation failed" >&2; return 3; }
	(cd "$B/tree/harness" && go build -o "$B/w" .) || { echo "check error: the instrumented tree does not build" >&2; return 3; }
}
build >"$B/build.log" 2>&1 || { tail -c 3000 "$B/build.log" >&2; exit 3; }
case ${1:-} in
--setup)
	exit 0;;
--replay)
	F=$(readlink -f "$2") || exit 3
	GODEBUG=clobberfree=1,gcshrinkstackoff=1,invalidptr=0 GOMAXPROCS=1 "$B/w" replay -in "$F" -strict
	exit $?;;
esac
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case $TIER in
thorough) SECS=${VERIF_SECS:-480};;
*) TIER=quick; SECS=${VERIF_SECS:-45};;
esac
"$B/w" drive -prop "$1" -tier "$TIER" -seed "$SEED" -verif "$VERIF" -secs "$SECS" -to "${VERIF_GROUPS:-100000000}" >"$B/out" 2>"$B/err"
RC=$?
tail -c 4000 "$B/err" >&2
# a program under simulation may print: only our own last lines count
tail -n 20 "$B/out" | cut -c1-2000
exit $RC
