#!/bin/bash
# Build the checks against /repo's current working tree.
set -uo pipefail
VERIF=$(cd "$(dirname "$0")/.." && pwd)
WORK=$VERIF/.work
mkdir -p "$WORK"
exec 9>"$WORK/lock"
flock 9
bash "$VERIF/scripts/ws.sh" "$WORK" || exit 2
# cargo looks at modification times only; a file restored with an old time
# would go unnoticed, so the content decides what is rebuilt.
H=$( (cd /repo && find Cargo.toml src *_lut -type f -print0 | sort -z | xargs -0 sha256sum
      find "$VERIF/harness/src" "$VERIF/harness/Cargo.toml" -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ ! -x "$WORK/target/release/vh" ] || [ ! -x "$WORK/target/checked/vh" ] || [ "$(cat "$WORK/built" 2>/dev/null)" != "$H" ]; then
    rm -f "$WORK/built"
    rm -rf "$WORK"/target/{release,checked}/.fingerprint/f256-* "$WORK"/target/{release,checked}/.fingerprint/vh-*
    cd "$VERIF/harness"
    for p in release checked; do
        cargo build --quiet --offline --profile $p --target-dir "$WORK/target" >"$WORK/build-$p.log" 2>&1 &
    done
    R=0
    for j in $(jobs -p); do wait "$j" || R=1; done
    if [ $R -ne 0 ]; then
        # concurrent builds wait for the same directory lock; try in sequence
        for p in release checked; do
            cargo build --quiet --offline --profile $p --target-dir "$WORK/target" >"$WORK/build-$p.log" 2>&1 || { cat "$WORK/build-$p.log" >&2; exit 2; }
        done
    fi
    echo "$H" >"$WORK/built"
fi
