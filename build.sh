# Sourced: build_bins CRATE ARGS... builds one of the check crates from /repo's current sources.
# Cargo decides by time stamps; a content hash makes the rebuild certain whatever the stamps are.
build_bins() {
    crate="$1"; shift
    export CARGO_TARGET_DIR="$here/$crate/target"
    mkdir -p "$CARGO_TARGET_DIR" || return 1
    (
        flock 9 || exit 1
        now="$(cd /repo && { find src -type f | LC_ALL=C sort; echo Cargo.toml; } | xargs sha256sum | sha256sum)"
        if [ "$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)" != "$now" ]; then
            rm -f "$CARGO_TARGET_DIR/repo.stamp"
            for f in "$CARGO_TARGET_DIR"/release/.fingerprint/tclifford-*; do
                [ -d "$f" ] && rm -rf -- "$f"
            done
        fi
        cargo build --offline --locked --release --quiet --manifest-path "$here/$crate/Cargo.toml" "$@" 1>&2 || exit 1
        printf '%s\n' "$now" > "$CARGO_TARGET_DIR/repo.stamp"
    ) 9> "$CARGO_TARGET_DIR/build.lock"
}
