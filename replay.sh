#!/bin/bash
# replay.sh FILE: evaluates the one case of a replay file; exits with 1 if the property does not hold for it.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
file="$(realpath "$1")"
id="$(python3 -c 'import json, sys; print(json.load(open(sys.argv[1]))["property"])' "$file")" || exit 2
build "$id" || exit 2
exec "$VERIF/out/bin/${id,,}" -verif "$VERIF" -mode replay -file "$file"
