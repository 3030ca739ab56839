#!/bin/bash
# Builds the framework: the AST dumper and the concrete driver (both are rebuilt by the checks when missing).
cd "$(dirname "$0")"
. /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
(cd tools/rastdump && CARGO_TARGET_DIR=../../build/rastdump cargo build --release -q --offline) || exit 1
python3 tools/mkws.py || exit 1
exit 0
