#!/bin/bash
# check.sh ID [quick|thorough]: builds and runs the check of one property.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
id="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
build "$id" || exit 2
exec "$VERIF/out/bin/${id,,}" -verif "$VERIF"
