# sourced by check and setup.sh
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export BITCOIND_SKIP_DOWNLOAD=1 ELECTRSD_SKIP_DOWNLOAD=1
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR_VERIF:-$HERE/target}
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$HERE/.build" "$CARGO_TARGET_DIR"

build_crate() {
  local log=$HERE/.build/build-$1.log
  if [ -x "$HERE/harness/$1/prepare.sh" ]; then
    bash "$HERE/harness/$1/prepare.sh" > "$HERE/.build/prepare-$1.log" 2>&1 || { cat "$HERE/.build/prepare-$1.log" >&2; echo "preparing $1 failed" >&2; return 2; }
  fi
  if ! cargo build --offline --manifest-path "$HERE/harness/$1/Cargo.toml" > "$log" 2>&1; then
    tail -40 "$log" >&2
    echo "building the $1 harness against /repo failed: no verdict" >&2
    return 2
  fi
}
