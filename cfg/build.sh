# Sourced by ../build.sh when C18 is checked: builds the transcript writer in
# every configuration, against /repo's working tree.
cfg_sum="$sum $(cat "$here"/cfg/Cargo.toml "$here"/cfg/Cargo.lock "$here"/cfg/src/*.rs "$here"/mc/src/view.rs "$here"/mc/src/hist.rs "$here"/cfg/configs | sha256sum)"
# One after another the configurations which share a target directory.
cfg_chain() {
    local chain=$1 name dir profile features flags out
    mkdir -p "$here/cfg/target/$chain"
    while read -r name dir profile features flags; do
        [ "$dir" = "$chain" ] || continue
        out=$here/cfg/target/bin/$name
        if [ -f "$out.sum" ] && [ "$(cat "$out.sum")" = "$cfg_sum" ]; then
            continue
        fi
        rm -f "$out.sum" "$out"
        [ "$features" = - ] && features=
        (
            cd "$here/cfg" || exit 1
            export CARGO_TARGET_DIR="$here/cfg/target/$chain"
            [ "$flags" = - ] || export RUSTFLAGS="$flags"
            cargo clean --offline --profile "$profile" -p nondestructive -p ndcfg >/dev/null 2>&1
            cargo build --offline -j 4 --profile "$profile" --features "$features" >"$here/out/cfg-$name.log" 2>&1
        ) || { tail -30 "$here/out/cfg-$name.log" >&2; return 1; }
        cp "$here/cfg/target/$chain/${profile/#dev/debug}/ndcfg" "$out" || return 1
        printf '%s' "$cfg_sum" >"$out.sum"
    done <"$here/cfg/configs"
}
mkdir -p "$here/cfg/target/bin"
cfg_pids=
for chain in $(cut -d' ' -f2 "$here/cfg/configs" | sort -u); do
    cfg_chain "$chain" &
    cfg_pids="$cfg_pids $!"
done
for p in $cfg_pids; do
    wait "$p" || return 2
done
