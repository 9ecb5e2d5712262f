#!/bin/bash
# check.sh PROP [TIER]: decides one property against /repo's working tree.
cd "$(dirname "$0")/.."
. tools/env.sh
[ -x bin/gvc ] || bash tools/setup.sh || exit 2
exec bin/gvc check "$1" "${2:-${VERIF_TIER:-quick}}"
