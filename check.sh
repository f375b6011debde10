#!/bin/bash
# check.sh <ID>            run one check (tier from VERIF_TIER, default quick)
# check.sh replay <file>   replay a violation
# Rebuilds the checker against /repo's working tree first.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/target" RUST_BACKTRACE=0 RUSTC_WRAPPER=
unset RUSTFLAGS
log=$(mktemp)
if ! cargo build --release --offline --manifest-path "$here/mc/Cargo.toml" >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"; echo "build failed" >&2; exit 2
fi
rm -f "$log"
export MC_VERIF="$here"
case "$1" in
  build) exit 0 ;;
  replay) exec "$here/target/release/mc" replay "$2" ;;
  *) exec "$here/target/release/mc" check "$1" ;;
esac
