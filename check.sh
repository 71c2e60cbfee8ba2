#!/bin/bash
# check.sh ID            build the simulator against /repo's working tree, run the check of property ID
# check.sh --build       only build
# check.sh --replay FILE reproduce a recorded violation
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export CARGO_NET_OFFLINE=true VERIF_ROOT="$PWD"
log=$(mktemp) || exit 2
trap 'unlink "$log"' EXIT
build() { # target-dir rustflags
  RUSTFLAGS="$2" cargo build --release --offline --manifest-path sim/Cargo.toml --target-dir "$1" >"$log" 2>&1
}
if build sim/target "--cfg zkp_sim"; then
  bin=sim/target/release/zkpsim
elif build sim/target-nohook ""; then
  echo "note: built without hooks"
  bin=sim/target-nohook/release/zkpsim
else
  tail -40 "$log" >&2
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
case "$1" in
  --build) exit 0 ;;
  --replay) "$bin" replay "$2" ;;
  --*) "$bin" "${1#--}" "${@:2}" ;;
  *) "$bin" check "$1" ;;
esac
exit $?
