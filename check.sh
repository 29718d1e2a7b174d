#!/bin/bash
# check.sh PROPERTY [tier] - decide one property for /repo's current working tree
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
if [ ! -x bin/symgo ] || [ -n "$(find symgo -newer bin/symgo -name '*.go' | head -1)" ]; then
  ./setup.sh || exit 2
fi
exec bin/symgo -verif "$PWD" "$1"
