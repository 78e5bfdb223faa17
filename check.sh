#!/bin/bash
# check.sh build          builds the simulator (both flavours) from /repo's working tree
# check.sh ID [TIER]      runs the check of one property; VERIF_SEED selects the seed
# check.sh replay FILE    reproduces a reported violation
set -u
here="$(cd "$(dirname "$0")" && pwd)"
sim="$here/sim"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$sim/target"

build() {
    (
        flock 9
        stamp=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
        for f in rel chk; do
            if [ "$(cat "$sim/target/$f.stamp" 2>/dev/null)" != "$stamp" ]; then
                rm -f "$sim/target/$f.stamp"
                [ -d "$sim/target/$f" ] && (cd "$sim" && cargo clean --offline -q -p linfa-linalg -p sim --target-dir "target/$f" 2>/dev/null; cargo clean --offline -q -p linfa-linalg -p sim --release --target-dir "target/$f" 2>/dev/null; cargo clean --offline -q -p linfa-linalg -p sim --profile checked --target-dir "target/$f" 2>/dev/null)
            fi
        done
        cd "$sim" || exit 3
        cargo build --offline -q --profile release --target-dir target/rel >target/rel.log 2>&1 &
        a=$!
        cargo build --offline -q --profile checked --target-dir target/chk >target/chk.log 2>&1 &
        b=$!
        wait $a && echo "$stamp" >target/rel.stamp || { cat target/rel.log >&2; wait $b; exit 3; }
        wait $b && echo "$stamp" >target/chk.stamp || { cat target/chk.log >&2; exit 3; }
    ) 9>"$sim/target/lock" || { echo "build failed" >&2; exit 3; }
}

rel="$sim/target/rel/release/sim"
chk="$sim/target/chk/checked/sim"
case "${1:-}" in
build)
    build
    ;;
replay)
    build
    case "$(grep -o '"flavour": "[a-z]*"' "$2")" in
    *checked*) exec "$chk" replay "$2" ;;
    *) exec "$rel" replay "$2" ;;
    esac
    ;;
"")
    echo "usage: check.sh build | ID [TIER] | replay FILE" >&2
    exit 2
    ;;
*)
    build
    mkdir -p "$here/evidence"
    exec "$rel" check --property "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" \
        --release "$rel" --checked "$chk" --out "$here/evidence" ${SIM_ARGS:-}
    ;;
esac
