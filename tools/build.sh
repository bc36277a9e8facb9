# sourced: build a harness against /repo's current tree. There are two, so that either can be judged when the other cannot
# be built: ampmon (the contracts) and ampdmon (the daemon). Cargo decides by modification time what to rebuild; a copy of
# the tree may carry old times, so crates whose content differs from the last build are marked dirty by content hash.
source "$here/tools/env.sh"
# harness_build ampmon|ampdmon: leaves the program in $HARNESS
harness_build() {
    local dir dirs d name h stamp
    case $1 in
    ampmon)
        dir=$here/harness
        export CARGO_TARGET_DIR="$here/target"
        dirs="/repo/contracts/* /repo/packages/*"
        ;;
    ampdmon)
        dir=$here/ampdmon
        export CARGO_TARGET_DIR="$here/target/daemon" RUSTFLAGS="--cfg tracing_unstable"
        dirs="/repo/contracts/* /repo/packages/* /repo/ampd"
        ;;
    esac
    HARNESS="$CARGO_TARGET_DIR/debug/$1"
    mkdir -p "$CARGO_TARGET_DIR/stamps"
    for d in $dirs; do
        [ -f "$d/Cargo.toml" ] || continue
        name=$(basename "$d")
        h=$(cd "$d" && find . -type f -not -path './target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
        stamp="$CARGO_TARGET_DIR/stamps/$name"
        if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
            rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/"$name"-*
            echo "$h" > "$stamp.new"
        fi
    done
    local ok=1 i
    for i in 1 2 3; do
        (cd "$dir" && cargo build --offline) && ok=0 && break
    done
    [ $ok = 0 ] || return 1
    for d in "$CARGO_TARGET_DIR"/stamps/*.new; do
        [ -e "$d" ] && mv "$d" "${d%.new}"
    done
    return 0
}
# harness_of C17: which harness decides this property
harness_of() {
    if grep -q "id: \"$1\"" "$here/ampdmon/src/props.rs"; then echo ampdmon; else echo ampmon; fi
}
