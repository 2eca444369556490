#!/bin/bash
# check.sh ID [tier]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
tier=${2:-${VERIF_TIER:-quick}}
if [ ! -x bin/vengine ] || [ -n "$(find engine -newer bin/vengine -type f -print -quit)" ]; then
	bash setup.sh || exit 2
fi
exec bin/vengine check "$1" "$tier"
