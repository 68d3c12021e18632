#!/bin/bash
# check.sh <property> [--only stage:index]   (VERIF_TIER=quick|thorough)
# Rebuilds the harness against /repo's working tree and explores one property.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$PWD/target
export RUSTFLAGS="--cfg ass_verif"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p target evidence
exec 9>target/.verif-lock; flock 9
# cargo compares timestamps; a content fingerprint makes sure that a tree whose
# files changed without newer timestamps is rebuilt as well
fp=$(cd /repo && find Cargo.toml crates -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ -f target/.fingerprint ] && [ "$fp" != "$(cat target/.fingerprint)" ]; then
  cargo clean --manifest-path mc/Cargo.toml --release --offline --locked -p ass-core -p ass-editor -p ass-renderer >/dev/null 2>&1
fi
echo "$fp" > target/.fingerprint
case "$1" in
  C*) bin=mc-core ;; E*) bin=mc-editor ;; R*) bin=mc-render ;; --build-all) bin= ;;
  *) echo "unknown property $1" >&2; exit 2 ;;
esac
cargo build --manifest-path mc/Cargo.toml --release --offline --locked -q ${bin:+-p $bin} >&2 || { echo "build failed" >&2; exit 2; }
[ -z "$bin" ] && exit 0
flock -u 9; exec 9>&-
exec "target/release/$bin" "$@"
