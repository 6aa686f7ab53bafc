#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# Builds the simulator against /repo's working tree and decides one property.
# exit 0: held; exit 1 and a VIOLATION line: broken; anything else: no answer.
cd "$(dirname "$0")" || exit 2
. ./env.sh
prop=$1 tier=${2:-${VERIF_TIER:-quick}}
mkdir -p evidence

case $prop in
  C17) exec ./check17.sh "$tier" ;;
esac

if [ "$tier" = quick ]; then
  unset ZOO_SEED ZOO_N
  build_sim "$prop" || exit $?
  exec "$DSIM" check "$prop" quick
fi

# thorough: several sets of message types, bigger ones, more runs of each
acc=$(mktemp) || exit 2
trap 'rm -f "$acc"' EXIT
for k in 1 2 3 4; do
  export ZOO_SEED=$(( (k - 1) * 1000 + ${VERIF_SEED:-1} )) ZOO_N=120
  build_sim "$prop" || exit $?
  DSIM_ACC=$acc "$DSIM" check "$prop" thorough || exit $?
done
exit 0
