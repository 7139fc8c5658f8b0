#!/bin/bash
# check.sh PROPERTY          run one property's check (VERIF_TIER, VERIF_SEED)
# check.sh replay FILE       run one replay file again
# check.sh build             build only
# Exit: 0 held, 1 violated, 2 could not be decided (build failure, harness error).
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$here/rustc-cov.sh"
build() { # features target-dir log
  CARGO_TARGET_DIR="$2" cargo build --offline --quiet $1 >"$3" 2>&1
}
# Cargo goes by modification times, which a checkout or a copy can set back: forget what was built
# from other sources.
repo=$(sed -n 's/^schemars = { path = "\(.*\)\/schemars".*/\1/p' Cargo.toml)
exec 9>"$here/sim/.lock" && flock 9
now=$(cd "$repo" && find schemars schemars_derive \( -name '*.rs' -o -name Cargo.toml \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
for t in target target-po; do
  if [ "$(cat "$here/sim/$t/sources" 2>/dev/null)" != "$now" ]; then
    find "$here/sim/$t/debug/.fingerprint" -maxdepth 1 -name 'schemars*' -exec rm -r {} + 2>/dev/null
    mkdir -p "$here/sim/$t" && printf '%s\n' "$now" >"$here/sim/$t/sources"
  fi
done
log=$(mktemp -d) || exit 2
# C13 runs the derive macros themselves, as a library made of a copy of their sources (gen.py).
build_derive() {
  cd "$here/derive_sim" || return 1
  python3 gen.py "$repo/schemars_derive" gen &&
    RUSTFLAGS="--cap-lints warn" CARGO_TARGET_DIR="$here/derive_sim/target" cargo build --offline --quiet
}
case "${1:-}:${2:-}" in
  C13:* | replay:*C13-*) what=derive ;;
  build:*) what="sim derive" ;;
  *) what=sim ;;
esac
ra=0 rb=0 rc=0
case "$what" in *sim*)
  build "" "$here/sim/target" "$log/a" & pa=$!
  build "--features preserve_order" "$here/sim/target-po" "$log/b" & pb=$!
  wait $pa; ra=$?
  wait $pb; rb=$?
esac
case "$what" in *derive*)
  (build_derive) >"$log/c" 2>&1; rc=$?
esac
if [ $ra -ne 0 ] || [ $rb -ne 0 ] || [ $rc -ne 0 ]; then
  cat "$log"/* >&2
  rm -rf "$log"
  echo "build failed" >&2
  exit 2
fi
rm -rf "$log"
exec 9>&-
export VERIF_DIR="$here" SIM_BIN="$here/sim/target/debug/sim" SIM_BIN_PO="$here/sim/target-po/debug/sim"
case "${1:-}" in
  build) exit 0 ;;
  replay)
    case "$2" in
      *C13-*) exec "$here/derive_sim/target/debug/derive-sim" replay "$2" ;;
      *) exec "$SIM_BIN" replay "$2" ;;
    esac ;;
  C13) exec "$here/derive_sim/target/debug/derive-sim" check C13 ;;
  '') echo "usage: $0 PROPERTY | replay FILE | build" >&2; exit 2 ;;
  *) exec "$SIM_BIN" check "$1" ;;
esac
