#!/bin/bash
# run.sh PROPERTY [extra mc flags]: rebuilds the checker against /repo's working
# tree and decides one property. Exit 0 held, 1 violated, 2 error of the check.
cd "$(dirname "$(realpath "$0")")" || exit 2
verif=$PWD
. tools/env.sh
prop=${1:?usage: run.sh PROPERTY}
shift
tier=${VERIF_TIER:-quick}
case " $* " in *" -tier "*) ;; *) set -- -tier "$tier" "$@" ;; esac
work=$(mktemp -d /tmp/verif-mc.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
if ! (cd mc && go build -o "$work/mc" .) >"$work/build.log" 2>&1; then
  cat "$work/build.log"
  echo "check $prop: build against /repo failed"
  exit 2
fi
export VERIF_WORK=$work
for attempt in 1 2; do
  "$work/mc" -verif "$verif" -prop "$prop" "$@" 2>"$work/stderr"
  rc=$?
  tail -c 4000 "$work/stderr" >&2
  [ $rc -le 1 ] && exit $rc
  # a fatal crash inside the library (e.g. unbounded recursion) cannot be recovered in-process
  if ! grep -q "jtejido/linear" "$work/stderr" || ! grep -Eq "stack overflow|stack exceeds|all goroutines are asleep|concurrent map" "$work/stderr"; then
    [ $attempt = 2 ] && exit 2
    continue
  fi
  if [ $attempt = 2 ]; then
    mkdir -p evidence/replay
    head -c 20000 "$work/stderr" >"evidence/replay/$prop.crash.txt"
    echo "VIOLATION property=$prop replay=$verif/evidence/replay/$prop.crash.txt"
    exit 1
  fi
done
exit 2
