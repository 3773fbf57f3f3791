#!/bin/bash
# Builds the simulator once; every check rebuilds what changed.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/sim/target"
cd "$here/sim" && cargo build --release --offline -q
