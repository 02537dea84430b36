#!/bin/bash
# check.sh PROPERTY [thorough]: decides one property on the current /repo.
cd "$(dirname "$0")"
V=$PWD
. /opt/vp/env.sh
if [ ! -x .build/symgo ] || [ -n "$(find engine -name '*.go' -newer .build/symgo)" ]; then
  ./setup.sh || exit 2
fi
export VERIF_DIR=$V
exec .build/symgo check "$@"
