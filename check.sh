#!/bin/bash
# check.sh <property>: rebuild the harness from /repo's working tree and decide one property.
# Exit 0 held, 1 violated (VIOLATION line), anything else an error of the check.
root=$(cd "$(dirname "$0")" && pwd)
cd "$root" || exit 2
. "$root/build.sh" || exit 2
build vh || exit 2
if [ "$1" = C13 ]; then build vh-race || exit 2; fi
exec "$root/.build/vh" run -prop "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -root "$root" "${@:2}"
