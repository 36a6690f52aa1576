#!/bin/bash
# check.sh ID [quick|thorough]: builds the monitor with the code of /repo's
# working tree and runs the workload of one property.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
# Exit 2 or 3: no verdict (build failure, harness failure, too few observations).
set -u
ID=${1:?usage: check.sh ID [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
unset GOMAXPROCS GOGC GOMEMLIMIT GODEBUG GORACE GOTRACEBACK
WORK=$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID.XXXXXX") || exit 2
trap 'rm -rf "$WORK"' EXIT
export TMPDIR=$WORK

build() { # build OUT FLAGS...
  local out=$1; shift
  (cd "$HERE/harness" && go build "$@" -o "$out" ./mon) 2>"$WORK/build.log" && return 0
  # a cache that cannot be used is no reason to give up
  (cd "$HERE/harness" && GOCACHE="$WORK/cache" go build "$@" -o "$out" ./mon) 2>"$WORK/build.log"
}

FLAGS=()
case $ID in
  C17) FLAGS=(-race) ;;
esac
if ! build "$WORK/mon" "${FLAGS[@]}"; then
  cat "$WORK/build.log" >&2
  echo "BUILD FAILED property=$ID" >&2
  exit 2
fi
"$WORK/mon" -prop "$ID" -tier "$TIER" -seed "${VERIF_SEED:-1}" -out "$HERE/evidence" -known "$HERE/known-findings.txt"
exit $?
