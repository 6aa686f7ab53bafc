#!/bin/bash
# replay.sh FILE: rebuilds the simulator with the message types of the file and
# repeats the recorded execution.  exit 1: reproduced; 0: did not fail; 3: failed differently.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
. ./env.sh
get() { python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get(sys.argv[2], ""))' "$f" "$1"; }
export ZOO_SEED=$(get zoo_seed) ZOO_N=$(get zoo_n)
prop=$(get property)
case $(get engine) in
  lite*) exec ./check17.sh replay "$f" ;;
esac
if [ "$(get class)" = "message types rejected" ]; then
  build_sim C02 > /dev/null 2>&1
  [ $? = 1 ] && { echo "reproduced: message types rejected"; exit 1; }
  exit 0
fi
build_sim replay || exit 2
exec "$DSIM" replay "$f"
