#!/bin/bash
# check.sh <property> [tier]: decide one property for /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -x bin/an ] || ./setup.sh || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
ulimit -v 16000000
limit=880; [ "$tier" = thorough ] && limit=15000
exec timeout $limit bin/an -check "$id" -tier "$tier" -verif "$PWD" -spec "$PWD/spec" -repo "${VERIF_REPO:-/repo}"
