#!/bin/bash
# run.sh build            build the simulator against /repo's working tree
# run.sh PROPERTY [TIER]  build, then check one property (exit 0 held, 1 violated)
# run.sh replay FILE      re-execute a recorded violation
here="$(cd "$(dirname "$0")" && pwd)"
export SIM_ROOT="$here" CARGO_NET_OFFLINE=true
log="$here/work/build.log"
mkdir -p "$here/work" "$here/evidence" "$here/replay"
if ! (cd "$here/sim" && cargo build --offline --locked) >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
sim="$here/sim/target/debug/sim"
case "$1" in
  build) exit 0 ;;
  replay) exec "$sim" replay "$2" ;;
  *) exec "$sim" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
