#!/bin/bash
# check17.sh quick|thorough, or check17.sh replay FILE: C17, one build of the
# simulator per feature configuration of the library.
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec python3 tools/check17.py "$@"
