# Sourced: build CONFIG and binary CONFIG (default: mixed-num without std; std: with its std feature).
. "$here/build_env.sh"
REPO=${VS_REPO:-/repo}
triple=x86_64-unknown-linux-gnu

binary() { echo "$here/target/$1/$triple/debug/sim"; }

build() {
    local conf=$1 dir="$here/target/$1" sum feat=() log
    mkdir -p "$dir"
    [ "$conf" = std ] && feat=(--features std)
    log="$dir/build.log"
    (
        flock 9
        # Cargo compares time stamps; a tree that was copied or patched is compared by content instead.
        sum=$(cd "$REPO" && cat Cargo.toml $(find src -type f | LC_ALL=C sort) | sha256sum)
        cd "$here/sim" || exit 2
        if [ "$(cat "$dir/source.sum" 2>/dev/null)" != "$sum" ]; then
            rm -f "$dir/source.sum"
            rm -rf "$dir/$triple"/debug/.fingerprint/mixed-num-*
        fi
        cargo build --offline --locked --target $triple --target-dir "$dir" "${feat[@]}" >"$log" 2>&1 ||
            # The user-defined number type may lack what a changed trait asks for.
            cargo build --offline --locked --target $triple --target-dir "$dir" "${feat[@]}" --features stand_in >"$log.2" 2>&1 || { tail -n 60 "$log" >&2; echo "the simulator does not build" >&2; exit 2; }
        echo "$sum" >"$dir/source.sum"
    ) 9>"$dir/lock"
}
