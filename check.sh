#!/bin/bash
# check.sh ID [quick|thorough]: build the harness and the command from /repo's working tree, run one check.
# Exit 0: held; 1: violation; 2: does not build; 3: inconclusive.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
. "$V/env.sh"
bash "$V/build.sh" >"$MON_TARGET/build.$ID.log" 2>&1 || { cat "$MON_TARGET/build.$ID.log"; rm -f "$MON_TARGET/build.$ID.log"; echo "ERROR does not build"; exit 2; }
rm -f "$MON_TARGET/build.$ID.log"
export MON_VERIF="$V"
export MON_DBG="$MON_TARGET/mon/debug/mon" MON_REL="$MON_TARGET/mon.r/release/mon"
export MON_CLI="$MON_TARGET/cli/debug/at-asm" MON_CLI_REL="$MON_TARGET/cli.r/release/at-asm"
exec "$MON_DBG" check "$ID" "$TIER"
