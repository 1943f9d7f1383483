#!/bin/bash
# check.sh PROPERTY [quick|thorough] : builds the check from /repo's working tree and runs it.
# exit 0: held on everything explored; 1: VIOLATION; anything else: the check itself failed.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
export VK_TIER=$TIER VK_VERIF=$HERE VERIF_SEED=${VERIF_SEED:-1}
BASE=/dev/shm; [ -w $BASE ] || BASE=/tmp
WORK=$(mktemp -d $BASE/vk.XXXXXX) || exit 3
trap 'rm -rf "$WORK"' EXIT
trap 'exit 3' INT TERM
export VK_BASE=$WORK/run TMPDIR=$WORK/tmp; mkdir -p $VK_BASE $TMPDIR
id=$(echo "$ID" | tr A-Z a-z)
cp /repo/go.mod $WORK/go.mod && cp $HERE/gomod/go.sum $WORK/go.sum || exit 3
export GOFLAGS="-mod=mod -buildvcs=false -modfile=$WORK/go.mod"
if ! python3 $HERE/tools/mkoverlay.py $HERE $WORK $id; then echo "overlay generation failed" >&2; exit 3; fi
cd /repo || exit 3
RACE=
# Schedule explorations run under the race detector, from which the scheduler itself is exempt.
# So are packages listed in the RACE file (slow ones that only one goroutine at a time uses).
if [ -f $HERE/go/$id/RACE ]; then
  RACE="-race -gcflags=github.com/KitchenMishap/pudding-shed/zz_verif/vsched=-race=false"
  # (exempt packages would otherwise allocate by a path that leaves the detector's old marks on reused memory)
  export GOEXPERIMENT=nosizespecializedmalloc
  for p in $(cat $HERE/go/$id/RACE); do RACE="$RACE -gcflags=$p=-race=false"; done
fi
export GORACE="halt_on_error=1 exitcode=66"
if ! go build $RACE -overlay $WORK/overlay.json -o $WORK/bin github.com/KitchenMishap/pudding-shed/zz_verif/$id >$WORK/build.log 2>&1; then
  echo "check $ID does not build against /repo:" >&2; tail -30 $WORK/build.log >&2; exit 3
fi
cd $WORK
$WORK/bin
rc=$?
exit $rc
