#!/bin/bash
# Builds what the checks use; every check builds again from /repo's current tree.
set -e
cd "$(dirname "$0")/../harness"
pkgs=()
for d in drivers/drv-*; do pkgs+=(-p "$(basename "$d")"); done
cargo build --offline --locked -q "${pkgs[@]}"
test -f /opt/veriftools/tla/tla2tools.jar
java -version 2>&1 | head -1
