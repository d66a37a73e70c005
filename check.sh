#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# check.sh --replay FILE               replay a violation
# check.sh --determinism PROPERTY [runs]  print log hashes of repeated batches
# check.sh --setup                     build everything once (warms the build cache)
#
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
# Exit 3: the check itself could not run (build failure, harness failure).
HERE=$(cd "$(dirname "$0")" && pwd)
SEED=${VERIF_SEED:-1}
S=$(mktemp -d /tmp/verif-sim.XXXXXX) || exit 3
trap 'rm -rf "$S"' EXIT
trap 'exit 3' INT TERM HUP
export TMPDIR=$S/tmp; mkdir -p "$TMPDIR"

binfor() { case $1 in C12|C13) echo simcli ;; C14) echo simgen ;; *) echo simlib ;; esac; }
# Generated parsers: generate a pool (or the grammar of a replay file) with the
# code under test, compile, instrument, and rebuild the harness with them.
pool() { # SEED SIZE|REPLAY
  { "$S/bin/simgen" -prep "$S/src" "$1" "$2" &&
    "$S/bin/instr" -dst "$S/src" -sim "$HERE/sim" -only "$(cat "$S/src/zsim/gen/packages.txt")" &&
    "$HERE/build.sh" "$S" simgen; } >"$S/build.log" 2>&1 || {
    echo "check.sh: cannot build the generated parsers:" >&2
    tail -40 "$S/build.log" >&2
    exit 3
  }
}
build() { # PROP -> $BINPATH
  local b race=
  b=$(binfor "$1")
  [ "$1" = C06 ] && race=-race
  "$HERE/build.sh" "$S" $race "$b" >"$S/build.log" 2>&1 || {
    echo "check.sh: cannot build the simulated system from ${SIM_REPO:-/repo}:" >&2
    tail -40 "$S/build.log" >&2
    exit 3
  }
  BINPATH=$S/bin/$b$race
}

case $1 in
--setup)
  for p in C01 C06 C12 C14; do build $p; done
  exit 0 ;;
--replay)
  P=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
  [ -n "$P" ] || { echo "check.sh: $2 is not a replay file" >&2; exit 3; }
  F=$(cd "$(dirname "$2")" && pwd)/$(basename "$2")
  build "$P"
  [ "$P" = C14 ] && pool 1 "$F"
  "$BINPATH" -replay "$F"; exit $? ;;
--determinism)
  build "$2"
  [ "$2" = C14 ] && pool "$SEED" 40
  for w in 8 8 3 1; do "$BINPATH" -prop "$2" -seed "$SEED" -runs "${3:-400}" -workers $w -det | grep LOGHASH; done
  exit 0 ;;
esac

P=$1
TIER=${2:-${VERIF_TIER:-quick}}
build "$P"
if [ "$P" = C14 ]; then
  POOL=${SIM_POOL:-400}
  [ "$TIER" = thorough ] && POOL=${SIM_POOL:-4000}
  pool "$SEED" "$POOL"
fi
WALL=420s
[ "$TIER" = thorough ] && WALL=${VERIF_WALL:-3h}
mkdir -p "$HERE/evidence" "$HERE/replays"
"$BINPATH" -prop "$P" -seed "$SEED" -tier "$TIER" -wall $WALL ${SIM_RUNS:+-runs $SIM_RUNS} \
  -evidence "$HERE/evidence/$P.json" -replays "$HERE/replays" \
  -sites "$S/src/zsim/sites.txt"
rc=$?
case $rc in 0|1) exit $rc ;; *) exit 3 ;; esac
