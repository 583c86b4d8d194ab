#!/bin/bash
# Builds every check once, offline, from the committed files.
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTC_WORKSPACE_WRAPPER=$PWD/tools/covrustc
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER
for c in harness few web; do
  [ -d $c ] && (cd $c && cargo build --offline --bins --keep-going 2>&1 | tail -5)
done
VERIF_DIR=$PWD python3 check.py C29 quick --prebuild 2>&1 | tail -5
exit 0
