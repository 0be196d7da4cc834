#!/bin/bash
# run.sh ID TIER: build the harness from /repo's current tree, and run a check.
# With "build" instead of ID, only build everything.
set -u
cd "$(dirname "$0")" || exit 2
export MC_HOME=$PWD RUST_BACKTRACE=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$PWD/harness/target
id=$1 tier=${2:-${VERIF_TIER:-quick}}

# cargo goes by modification times, and a copied tree may have any. So go by contents.
fresh() {
    local h; h=$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    mkdir -p "$CARGO_TARGET_DIR"
    if [ "$h" != "$(cat "$CARGO_TARGET_DIR/sources" 2>/dev/null)" ]; then
        find "$CARGO_TARGET_DIR" -path '*/.fingerprint/*' -type d -name 'splr-*' -prune -exec rm -rf {} +
        echo "$h" >"$CARGO_TARGET_DIR/sources"
    fi
}
build() { # BIN [ARGS..]
    local log; log=$(mktemp)
    if ! (cd harness && RUSTFLAGS="--cfg splr_verif" cargo build --offline --locked --profile chk "$@") >"$log" 2>&1; then
        tail -40 "$log"; rm -f "$log"; echo "the harness can't be built"; exit 2
    fi
    rm -f "$log"
}
commands() {
    local log; log=$(mktemp)
    if ! cargo build --offline --locked --manifest-path /repo/Cargo.toml --bins --target-dir "$PWD/harness/target/commands" >"$log" 2>&1; then
        tail -40 "$log"; rm -f "$log"; echo "the commands can't be built"; exit 2
    fi
    rm -f "$log"
    export MC_BIN=$PWD/harness/target/commands/debug
}

# the builds with other features, for C18: names and cargo features
DEFAULT="unsafe_access trail_saving BT_deepen dynamic_restart_threshold LRB_rewarding reason_side_rewarding rephase reward_annealing two_mode_reduction clause_elimination clause_vivification"
MINUS="trail_saving BT_deepen dynamic_restart_threshold reason_side_rewarding reward_annealing two_mode_reduction clause_elimination clause_vivification"
PLUS="assign_rate best_phases_tracking bi_clause_completion just_used no_IO stochastic_local_search trace_elimination platform_wasm"
features() { # +X -Y ..
    local r="" d
    for d in $DEFAULT; do [[ " $* " == *" -$d "* ]] || r="$r,splr/$d"; done
    for d in "$@"; do
        case $d in
            +platform_wasm) r="$r,wasm" ;;
            +*) r="$r,splr/${d#+}" ;;
        esac
    done
    echo "${r#,}"
}
variant() { # OUT +X -Y ..
    local out=$1 t; shift
    t=$(mktemp -d "$CARGO_TARGET_DIR/v.XXXXXX")
    (cd harness && CARGO_INCREMENTAL=0 RUSTFLAGS="--cfg splr_verif" cargo build --offline --locked --profile chk --bin mcf \
        --target-dir "$t" --no-default-features --features "$(features "$@")") >"$t/log" 2>&1 &&
        mv "$t/chk/mcf" "$out/$(IFS=; echo "$*")" || echo "the build $* is left out: $(grep -m1 ^error "$t/log")"
    rm -rf "$t"
}
variants() {
    local key a b; key=$( (cat "$CARGO_TARGET_DIR/sources"; cat harness/Cargo.* harness/src/*.rs harness/src/bin/mcf.rs) | sha256sum | cut -c1-16)
    export MC_BUILDS=$CARGO_TARGET_DIR/builds/$key-$tier
    [ -e "$MC_BUILDS.done" ] && return
    rm -rf "$CARGO_TARGET_DIR/builds"
    mkdir -p "$MC_BUILDS"
    export -f variant features
    export DEFAULT
    {
        for a in $MINUS; do echo "-$a"; done
        for a in $PLUS; do echo "+$a"; done
        if [ "$tier" = thorough ]; then
            # pairs of the ones that change the search
            local l; l=($(for a in $MINUS; do echo "-$a"; done) +best_phases_tracking +bi_clause_completion +just_used +stochastic_local_search)
            for ((a = 0; a < ${#l[@]}; a++)); do for ((b = a + 1; b < ${#l[@]}; b++)); do echo "${l[a]} ${l[b]}"; done; done
        fi
    } | xargs -P 8 -I{} bash -c "variant $MC_BUILDS {}"
    [ "$(ls "$MC_BUILDS" | wc -l)" -ge 8 ] || { echo "the builds can't be made"; exit 2; }
    touch "$MC_BUILDS.done"
}

fresh
case $id in
    build) build --bin mc; build --bin mcw; build --bin mcp; build --bin mcf; commands; exit 0 ;;
    C05|C07|C08|C09|C10|C22|C27|C29) bin=mcw ;;
    C18) bin=mcf; variants ;;
    C20|C21|C25) bin=mcp ;;
    C13|C14|C26|C30|C31) bin=mc; commands ;;
    *) bin=mc ;;
esac
build --bin $bin
exe=$CARGO_TARGET_DIR/chk/$bin
# a private copy: another check may rebuild it at the same time
run=$(mktemp -d) || exit 2
trap 'rm -rf "$run"' EXIT
cp "$exe" "$run/$bin" || exit 2
ulimit -c 0
ulimit -v 6000000
"$run/$bin" drive "$id" "$tier"
