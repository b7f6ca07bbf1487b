#!/bin/bash
# Pre-builds the harness (fills the build cache, including the race-enabled runtime).
root=$(cd "$(dirname "$0")" && pwd)
. "$root/build.sh" || exit 2
build vh || exit 2
build vh-race || exit 2
