#!/bin/bash
# Builds the harness against /repo, so that a check only rebuilds what has changed since.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh >/dev/null 2>&1 || true
export CARGO_TARGET_DIR=$PWD/target
mkdir -p evidence
cd harness && cargo build --offline
CARGO_TARGET_DIR=$CARGO_TARGET_DIR/std cargo build --offline --features single-term-leader
cd ../stores && CARGO_TARGET_DIR=$CARGO_TARGET_DIR/stores cargo build --offline
