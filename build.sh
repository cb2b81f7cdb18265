#!/bin/bash
# Build the harness and the at-asm command, each with and without checked arithmetic, from /repo's working tree.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$V/env.sh"
exec 9>"$MON_TARGET/lock"
flock 9
# cargo goes by time stamps: when the contents differ from those last built, make it forget them
H="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$H" != "$(cat "$MON_TARGET/sources" 2>/dev/null)" ]; then
    for d in mon mon.r cli cli.r; do
        for q in debug release; do
            find "$MON_TARGET/$d/$q/.fingerprint" -maxdepth 1 \( -name 'at-*' -o -name 'mon-*' \) -exec rm -rf -- {} + 2>/dev/null
        done
    done
    rm -f "$MON_TARGET/sources"
fi
pids=()
(cd "$V/harness" && cargo build --offline --locked --target-dir "$MON_TARGET/mon") & pids+=($!)
(cd "$V/harness" && cargo build --offline --locked --release --target-dir "$MON_TARGET/mon.r") & pids+=($!)
(cd /repo && cargo build --offline --locked -p at-asm --bin at-asm --target-dir "$MON_TARGET/cli") & pids+=($!)
(cd /repo && cargo build --offline --locked --release -p at-asm --bin at-asm --target-dir "$MON_TARGET/cli.r") & pids+=($!)
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
[ $rc = 0 ] && echo "$H" >"$MON_TARGET/sources"
exit $rc
