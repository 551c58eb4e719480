#!/bin/bash
# check.sh ID            run the check of one property (tier from VERIF_TIER or $2)
# check.sh replay FILE   re-run a recorded failure
# check.sh build         build only
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$PWD/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_LIB_BACKTRACE STDSEAM RUSTC_WORKSPACE_WRAPPER
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
export RUSTC_WRAPPER="$PWD/sim/rustc.sh"

# The crates under test are compiled with stdseam in the place of std. Cargo does
# not know of that, so what was compiled otherwise is cleaned away first. Code
# that the facade cannot serve is built with the real std.
under_test=(-p jmt -p pmt -p serde_hash)
mode() { # the standard library to compile against: an rlib, or "std"
  if [ "$(cat sim/target/std-in-use 2>/dev/null)" != "$1" ]; then
    (cd sim && cargo clean --offline "${under_test[@]}" >/dev/null 2>&1)
    mkdir -p sim/target && echo "$1" >sim/target/std-in-use
  fi
}
exec 9>sim/.lock; flock 9
seam=$(cd sim && cargo build --offline -p stdseam --message-format=json 2>/dev/null | grep -o '"[^"]*/libstdseam[^"]*\.rlib"' | head -1 | tr -d '"')
rc=1
if [ -f "$seam" ]; then
  mode "$seam $(sha256sum <"$seam")"
  log=$(cd sim && STDSEAM="$seam" cargo build --offline 2>&1); rc=$?
fi
if [ $rc -ne 0 ]; then
  mode std
  log=$(cd sim && cargo build --offline 2>&1); rc=$?
  [ $rc -eq 0 ] && echo "note: built with the real std: its locks and atomics are no scheduling points"
fi
if [ $rc -ne 0 ]; then
  echo "$log" | tail -40
  echo "ERROR: build failed"
  exit 3
fi
if echo "$log" | grep -q "was not used in the crate graph"; then
  echo "ERROR: the simulated locks or hash seeds are not linked in"
  exit 3
fi
exec 9>&-
ulimit -v 3500000
bin=sim/target/debug/patsim
case "$1" in
  build) exit 0 ;;
  replay) exec $bin replay "$2" ;;
  *) exec $bin check "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
