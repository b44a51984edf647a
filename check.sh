#!/bin/bash
# check.sh PROPERTY: decides one property of /repo's working tree.
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/gosym ] || [ -n "$(find engine -name '*.go' -newer bin/gosym -print -quit)" ]; then
  bash setup.sh || exit 2
fi
exec bin/gosym -verif "$PWD" -repo "${VERIF_REPO:-/repo}" "$@"
