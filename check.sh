#!/bin/bash
# check.sh ID: decides one property for the working tree of /repo.
# Exit 0: it held on everything explored. Exit 1 and a line VIOLATION ..: it is broken.
. "$(dirname "$0")/env.sh"
id=${1:?usage: check.sh ID}
profile=release
# this one is about builds with overflow checks and debug assertions
[ "$id" = C28 ] && profile=checked
build $profile || exit 2
cd "$VERIF" || exit 2
if [ "$id" = C22 ]; then
    wasm/build.sh
    case $? in
    0) ;;
    1)
        # the library compiles for this machine (it just did), but not for a 32 bit one
        mkdir -p replays evidence
        cp target/wasm/build.log replays/C22-build.log
        echo "C22: the library cannot be compiled for a 32 bit platform"
        echo "VIOLATION property=C22 replay=$VERIF/replays/C22-build.log"
        exit 1
        ;;
    *)
        echo "error: the module for the 32 bit platform cannot be built" >&2
        exit 2
        ;;
    esac
fi
exec "$FPV" check "$id"
