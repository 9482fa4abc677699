#!/bin/bash
# replay.sh FILE: evaluates a case that a check has saved. Exit 0 if it passes, 1 if it does not.
. "$(dirname "$0")/env.sh"
f=$(realpath "${1:?usage: replay.sh FILE}") || exit 2
profile=release
grep -q '^{"property":"C28"' "$f" && profile=checked
build $profile || exit 2
grep -q '^{"property":"C22"' "$f" && { "$VERIF/wasm/build.sh" || exit 2; }
exec "$FPV" replay "$f"
