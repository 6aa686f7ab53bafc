# Shared by check.sh and replay.sh; the working directory is /verif.
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.98.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUST_BACKTRACE CARGO_PROFILE_DEV_DEBUG
DSIM=$PWD/sim/target/debug/dsim

# Exit status 2: the build is broken.  1: only the message types do not build,
# the library and the simulator do (reported for the property it is about).
build_sim() {
  local log=evidence/$1.build.log
  if (cd sim && cargo build --offline -q -p dsim) > "$log" 2>&1; then
    rm -f "$log"
    return 0
  fi
  if [ "$1" = C02 ] || [ "$1" = C07 ]; then
    if (cd sim && cargo build --offline -q -p dcore) > /dev/null 2>&1 && grep -q '^error' "$log" && grep -Eq 'could not compile `z[0-9]' "$log" && ! grep -q 'could not compile `dsim' "$log"; then
      python3 - "$1" "$log" <<'P'
import json, os, sys
p, log = sys.argv[1:]
t = open(log).read()
json.dump({"property": p, "class": "message types rejected", "zoo_seed": os.environ.get("ZOO_SEED", "1"), "zoo_n": os.environ.get("ZOO_N", "120"),
           "detail": "message types with documented attributes no longer compile", "build": t[:20000], "replay_cmd": "./replay.sh <this file>"},
          open("evidence/%s.replay.json" % p, "w"), indent=1)
json.dump({"property": p, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
           "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the message types of the simulation have to compile first", "samples": [t[:2000]]},
           "wall_s": 0, "violations": 1}, open("evidence/%s.json" % p, "w"), indent=1)
P
      head -30 "$log"
      echo "VIOLATION property=$1 replay=evidence/$1.replay.json"
      return 1
    fi
  fi
  tail -40 "$log" >&2
  return 2
}
