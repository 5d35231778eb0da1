# Sourced: builds mc/ (and cfg/) against /repo's working tree, sets BIN.
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
here=$(pwd)
BIN=$here/mc/target/release/ndmc
mkdir -p "$here/mc/target" "$here/out" "$here/evidence"
# cargo decides by modification times; decide by content instead, so that a
# tree whose files were replaced by ones of the same age is rebuilt too.
sum=$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
stamp=$here/mc/target/repo.sum
if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$sum" ]; then
    rm -f "$stamp"
    (cd "$here/mc" && cargo clean --offline --release -p nondestructive >/dev/null 2>&1)
fi
(cd "$here/mc" && cargo build --offline --release >"$here/out/build.log" 2>&1) || {
    echo "the checker does not build against /repo:" >&2
    tail -40 "$here/out/build.log" >&2
    return 2
}
printf '%s' "$sum" >"$stamp"
# C18 compares build configurations.
if [ "${1:-}" = C18 ] || [ "${1:-}" = all ]; then
    . "$here/cfg/build.sh" || return 2
fi
