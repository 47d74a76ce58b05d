#!/bin/bash
# Builds the simulator against /repo's current working tree, hooks on.
cd "$(dirname "$0")/../sim" || exit 3
. /opt/vp/env.sh
export RUSTFLAGS="--cfg wat_sim" CARGO_NET_OFFLINE=true
# what was built is identified by content, not by file times
now=$(cd /repo && find crates Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.ron' -o -name '*.txt' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ -d target ] && [ "$(cat target/.built-from 2>/dev/null)" != "$now" ]; then
  cargo clean --release --offline -p wat_server_sim -p wat_service -p wat_parser -p wat_formatter -p wat_syntax >/dev/null 2>&1
fi
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then cat "$log"; rm -f "$log"; exit 3; fi
rm -f "$log"
echo "$now" > target/.built-from
