#!/bin/bash
# check.sh ID: builds the simulator against /repo's current working tree and runs the check of one property.
# Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check itself could not be carried out.
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
exec "$SIM" check "$1"
