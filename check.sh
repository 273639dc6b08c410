#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Decides one property against the current working tree of /repo.
# exit 0: held on everything explored; exit 1 + VIOLATION line: broken.
cd "$(dirname "$0")" || exit 0
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
export HOME=${HOME:-/root}
prop=${1:?property id}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
stale=0
if [ ! -x bin/gosym ]; then stale=1; else
  for f in engine/*.go engine/go.mod; do [ "$f" -nt bin/gosym ] && stale=1; done
fi
if [ $stale = 1 ]; then ./build.sh >&2 || { echo "INCONCLUSIVE property=$prop the engine does not build" ; exit 2; }
fi
exec ./bin/gosym -prop "$prop" -root "$PWD"
