#!/bin/bash
# check.sh ID [quick|thorough]: rebuild the simulator against /repo and decide one property.
# Exit 0 held, 1 violation, 2 the tree does not build, 3 harness error.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
. /opt/vp/env.sh
export CARGO_NET_OFFLINE=true VERIF_DIR="$here" VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
case $id in C09|C10|C11) exec python3 "$here/mirisim/drive.py" check "$id" "$tier";; esac
export CARGO_TARGET_DIR="$here/sim/target"
if ! (cd "$here/sim" && cargo build --release --offline -q 2>"$here/sim/build.log"); then
  cat "$here/sim/build.log" >&2
  echo "vzsim does not build against /repo" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/release/vzsim" check "$id" "$tier"
