#!/bin/bash
# run.sh PROPERTY [quick|thorough]: rebuild the simulator from the working tree of
# /repo and check one property. run.sh build: only build.
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC_BOOTSTRAP
export VERIF_DIR="$here"
mkdir -p evidence replays target

nightly=nightly-x86_64-unknown-linux-gnu
stable=stable-x86_64-unknown-linux-gnu

# compile TOOLCHAIN TARGET_DIR [FEATURES]
compile() {
  (cd sim && RUSTUP_TOOLCHAIN="$1" CARGO_TARGET_DIR="$2" cargo build --release --offline --locked --quiet --features "${3:-}")
}

# try TOOLCHAIN TARGET_DIR [FEATURES]: compile; say why if it fails.
try() {
  local log rc
  log=$(mktemp "$here/target/build.XXXXXX.tmp") || return 2
  compile "$@" >"$log" 2>&1
  rc=$?
  if [ $rc != 0 ]; then
    tail -n 60 "$log" >&2
    echo "the simulator does not build against /repo" >&2
    SIM_BUILD_ERROR=$(grep -m1 -A2 '^error' "$log")
    export SIM_BUILD_ERROR
  fi
  rm -f "$log"
  return $rc
}

# If it is only the catalogue of templates that does not compile, then the macros
# reject templates they should accept; the other properties can be decided.
nightly() {
  try $nightly "$here/target" || compile $nightly "$here/target" without-templates 2>/dev/null || return 2
}

# The macros see less of a template with a stable compiler. What compiles with a
# nightly one has to compile here as well.
stable() {
  try $stable "$here/target/stable" stable-compiler || {
    compile $nightly "$here/target" 2>/dev/null && compile $nightly "$here/target/stable" "stable-compiler without-templates" 2>/dev/null
  } || return 2
}

case "$1" in
  build) nightly && stable; exit ;;
  C15) stable || exit 2; sim=target/stable/release/sim ;;
  *) nightly || exit 2; sim=target/release/sim ;;
esac
exec "$sim" check --prop "$1" --tier "${2:-${VERIF_TIER:-quick}}"
