#!/bin/bash
# dump.sh OUT.json [root,root...]: builds the driver if needed and dumps the MIR of the harness roots.
# MIRV_DA=off: as compiled without debug assertions (release builds); arithmetic stays checked.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
B="${MIRV_BUILD:-$here/../build}"; mkdir -p "$B"; B="$(cd "$B" && pwd)"
(cd "$here/driver" && flock "$B/drv.lock" cargo build --offline --target-dir "$B/drv" >"$B/drv.log" 2>&1) || { cat "$B/drv.log" >&2; exit 3; }
cd "${MIRV_HARNESS:-$here/harness}"
DA="${MIRV_DA:-on}"; X=""; [ "$DA" = off ] && X=off
exec 9>"$B/harness$X.lock"; flock 9
touch src/lib.rs
MIRDUMP_CRATE=contracts MIRDUMP_OUT="$1" MIRDUMP_ONLY="$2" MIRDUMP_STOP="$here/py/stop.txt" RUSTC_WRAPPER="$B/drv/debug/mirdump" \
RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=$DA -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings" \
CARGO_NET_OFFLINE=true cargo +nightly check --offline --target-dir "$B/hx$X" >"$B/harness$X.log" 2>&1 || { cat "$B/harness$X.log" >&2; exit 4; }
