#!/bin/bash
# Builds the MIR dumper, the harness and the companion from the committed files, offline.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
export CARGO_NET_OFFLINE=true
for da in on off; do
  MIRV_DA=$da MIRV_BUILD="$PWD/build" ./mirv/dump.sh "$PWD/build/setup-dump.json"
done
rm -f build/setup-dump.json
(cd own && cargo check --offline --target-dir ../build/own)
(cd companion && cargo build --offline --target-dir ../build/comp && cargo build --offline --release --target-dir ../build/comp)
echo setup done
