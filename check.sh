#!/bin/bash
# check.sh <property id>: rebuild the harness against /repo's working tree and run one check.
# Tier and seed come from VERIF_TIER and VERIF_SEED.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_TARGET_DIR
log=$(mktemp)
# cargo goes by times of change; here the contents decide
sum=$(cd /repo && { find src -type f -print0 | sort -z; printf 'Cargo.toml\0'; } | xargs -0 sha256sum 2>/dev/null | sha256sum)
for d in harness fuzz; do
    if [ -d "$here/$d/target" ] && [ "$(cat "$here/$d/target/repo.sum" 2>/dev/null)" != "$sum" ]; then
        find "$here/$d/target" -path '*/.fingerprint/actiondb-*' -type f -delete
        echo "$sum" >"$here/$d/target/repo.sum"
    fi
done
build() {
    (cd "$here/harness" && cargo build --release --offline --locked "$@") >"$log" 2>&1
}
if ! build; then
    # perhaps only a part of the API has changed which this check does not use
    case "$1" in
        C22|C23|C36) need="utils" ;;
        C26|C27|C31) need="own" ;;
        C28|C33|C34) need="node" ;;
        C16|C18) need="" ; build --no-default-features --features own && need="own" ;;
        *) need="" ;;
    esac
    if ! build --no-default-features --features "$need"; then
        grep -A12 '^error' "$log" | head -100
        rm -f "$log"
        echo "ERROR: the harness does not build against /repo"
        exit 3
    fi
fi
rm -f "$log"
[ -z "$1" ] && exit 0
if [ "$VERIF_TIER" != thorough ] || [ "$1" = C25 ]; then
    exec "$here/harness/target/release/adbcheck" run "$1"
fi
"$here/harness/target/release/adbcheck" run "$1" || exit $?
# the same generators and oracles, the choices now mutated under coverage guidance
fuzzer="$here/fuzz/target/x86_64-unknown-linux-gnu/release/adbfuzz"
if (cd "$here/fuzz" && cargo +nightly fuzz build -O -s none --fuzz-dir . adbfuzz) >/dev/null 2>&1 && [ -x "$fuzzer" ]; then
    exec "$here/harness/target/release/adbcheck" fuzz "$1" "$fuzzer"
fi
echo "NOTE: the fuzzer does not build here; coverage-guided search left out"
