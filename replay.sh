#!/bin/bash
# replay.sh FILE: executes one recorded violation again (exit 1 and a VIOLATION line if it shows).
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
exec "$SIM" replay "$f"
