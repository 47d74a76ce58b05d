#!/bin/bash
# check.sh PROPERTY [options]: rebuild from /repo, then search.
d="$(cd "$(dirname "$0")/.." && pwd)"
bash "$d/tools/build.sh" || { echo "the simulator does not build against /repo"; exit 3; }
WATSIM_ROOT="$d" exec "$d/sim/target/release/watsim" check "$@"
