#!/bin/bash
# build.sh SCRATCH [-race] BIN...: instruments /repo's current working tree into
# SCRATCH/src and builds the named harness binaries into SCRATCH/bin.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${SIM_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOPATH=${GOPATH:-/root/go}
S=$1; shift
RACE=
if [ "$1" = -race ]; then RACE=-race; shift; fi
mkdir -p "$S/bin"
if [ ! -d "$S/src" ]; then
  (cd "$HERE/sim/instr" && go build -trimpath -o "$S/bin/instr" .)
  mkdir -p "$S/src"
  unset GOWORK
  "$S/bin/instr" -src "$REPO" -dst "$S/src" -sim "$HERE/sim"
  export GOWORK=off
fi
cd "$S/src"
for b in "$@"; do
  GOFLAGS=-mod=mod go build $RACE -trimpath -o "$S/bin/$b$RACE" "./zsim/harness/$b"
done
