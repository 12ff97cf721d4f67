#!/bin/bash
# Prepare $WORK/ws: what cargo sees as the f256 package.  Everything in it is a
# symlink to the repository, read at the moment of the build, except Cargo.lock
# and the table crates' src/lib.rs, which /repo does not contain (see luts/).
# usage: ws.sh WORKDIR [REPO]
set -euo pipefail
VERIF=$(cd "$(dirname "$0")/.." && pwd)
WORK=$1
REPO=${2:-/repo}
WS=$WORK/ws
mkdir -p "$WORK/tables" "$WS"
if [ ! -s "$WORK/tables/.done" ] || ! cmp -s "$VERIF/luts/gen_luts.c" "$WORK/tables/.done"; then
    gcc -O2 "$VERIF/luts/gen_luts.c" -lgmp -o "$WORK/tables/gen_luts"
    "$WORK/tables/gen_luts" "$WORK/tables"
    cp "$VERIF/luts/gen_luts.c" "$WORK/tables/.done"
fi
find "$WS" -mindepth 1 -maxdepth 1 ! -name Cargo.lock ! -name '*_lut' -exec rm -rf {} +
for e in "$REPO"/*; do
    n=${e##*/}
    case $n in
        Cargo.lock|target) ;;
        *_lut)
            mkdir -p "$WS/$n/src"
            for f in "$e"/*; do
                b=${f##*/}
                [ "$b" = src ] || ln -sfn "$f" "$WS/$n/$b"
            done
            cmp -s "$VERIF/luts/crates/$n.rs" "$WS/$n/src/lib.rs" || cp "$VERIF/luts/crates/$n.rs" "$WS/$n/src/lib.rs"
            ;;
        *) ln -sfn "$e" "$WS/$n" ;;
    esac
done
