#!/bin/bash
# Checks build what they need themselves; this only makes sure that they can.
cd "$(dirname "$0")" || exit 1
. ./env.sh
build_sim setup || exit 1
"$DSIM" props > /dev/null
