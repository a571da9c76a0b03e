#!/bin/bash
# /verif/run.sh <property>: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
if [ ! -x .cache/gv ] || [ -n "$(find engine cmd go.mod -newer .cache/gv -name '*.go' -print -quit)" ]; then
  bash ./setup.sh >&2 || { echo "cannot build the verifier"; exit 2; }
fi
exec .cache/gv check -prop "$1" ${GV_ARGS:-}
