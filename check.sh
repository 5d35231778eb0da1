#!/bin/bash
# check.sh PROPERTY TIER: build the checker against /repo's working tree and run it.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: an error.
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
exec "$BIN" check "$1" --tier "${2:-quick}"
