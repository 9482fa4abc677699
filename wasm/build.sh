#!/bin/bash
# Builds the module for wasm32-unknown-unknown, standard library included, from what is installed.
# Exit 0: built. Exit 1: the library itself does not compile for this platform. Exit 2: anything else.
. "$(dirname "$0")/../env.sh"
out=$VERIF/target/wasm
vendor=$out/vendor
mkdir -p "$out" || exit 2
sysroot=$(RUSTUP_TOOLCHAIN=nightly rustc --print sysroot) || exit 2
if [ ! -f "$vendor/.done" ]; then
    for d in "$vendor.tmp" "$vendor"; do [ -e "$d" ] && find "$d" -delete; done
    mkdir -p "$vendor.tmp"
    for d in "$sysroot"/lib/rustlib/src/rust/library/vendor/*/; do
        ln -s "${d%/}" "$vendor.tmp/$(basename "$d")"
    done
    # what the library and this module need beyond the standard library
    awk -F'"' '/^name = /{n=$2} /^version = /{v=$2} /^source = /{print n "-" v}' \
        "$VERIF/wasm/Cargo.lock" | while read -r c; do
        [ -e "$vendor.tmp/$c" ] && continue
        f=$(ls "$HOME"/.cargo/registry/cache/*/"$c.crate" 2>/dev/null | head -1)
        [ -n "$f" ] || { echo "error: $c is not in the cargo cache" >&2; exit 2; }
        tar -xzf "$f" -C "$vendor.tmp" || exit 2
        printf '{"files":{},"package":"%s"}' "$(sha256sum "$f" | cut -d' ' -f1)" \
            >"$vendor.tmp/$c/.cargo-checksum.json"
    done || exit 2
    touch "$vendor.tmp/.done"
    mv "$vendor.tmp" "$vendor"
fi
log=$out/build.log
cd "$VERIF/wasm" || exit 2
if RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$out cargo build --release --offline \
    --config 'source.crates-io.replace-with="v"' \
    --config "source.v.directory=\"$vendor\"" \
    -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown >"$log" 2>&1; then
    exit 0
fi
tail -40 "$log" >&2
grep -q 'could not compile `fast_paths`' "$log" && exit 1
exit 2
