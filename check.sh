#!/bin/bash
# check.sh <property>  (tier from VERIF_TIER or second argument)
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
[ -x bin/gosym ] || bash tools/build.sh || exit 3
exec bin/gosym check -id "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$PWD"
