#!/bin/bash
# run.sh <property> [quick|thorough|replay FILE|case WORKLOAD INDEX [thorough]]
# Builds the property's monitor program against /repo's working tree and runs it.
ID=$1; MODE=${2:-quick}
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOENV=off GO111MODULE=on GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off GODEBUG=
export VERIF_SEED=${VERIF_SEED:-1}
c=$(echo "$ID" | tr 'A-Z' 'a-z')
B=$VERIF_DIR/.build/$c
mkdir -p "$B" || exit 2
cd "$VERIF_DIR/harness" || exit 2
if ! go build -o "$B/mon" ./cmd/$c 2>"$B/build.log"; then
  echo "BUILD FAILED for $ID"; tail -40 "$B/build.log"; exit 2
fi
if grep -q 'Race:\s*true' cmd/$c/*.go; then
  if ! go build -race -o "$B/mon.race" ./cmd/$c 2>"$B/build.log"; then
    echo "RACE BUILD FAILED for $ID"; tail -40 "$B/build.log"; exit 2
  fi
  export VK_RACE_BIN=$B/mon.race
fi
if grep -q VK_MAIN_BIN cmd/$c/*.go; then
  if ! go build -o "$B/gospn" github.com/RenatoGeh/gospn 2>"$B/build.log"; then
    echo "PROGRAM BUILD FAILED for $ID"; tail -40 "$B/build.log"; exit 2
  fi
  export VK_MAIN_BIN=$B/gospn
fi
case $MODE in
  build) exit 0 ;;
  quick|thorough) "$B/mon" "$MODE"; exit $? ;;
  replay) "$B/mon" -replay "$(realpath "$3")" >/dev/null ; exit $? ;;
  case) "$B/mon" -case "$3" "$4" $5 >/dev/null ; exit $? ;;
  racecase) GORACE="halt_on_error=0" "$B/mon.race" -case "$3" "$4" $5 >/dev/null ; exit $? ;;
  *) echo "usage: run.sh <property> quick|thorough"; exit 2 ;;
esac
