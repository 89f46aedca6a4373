#!/bin/bash
# builds the harness once, in all three configurations
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
cd harness || exit 2
CARGO_TARGET_DIR=../target cargo build --offline -q || exit 1
CARGO_TARGET_DIR=../target-paranoid cargo build --offline -q --features paranoid || exit 1
CARGO_TARGET_DIR=../target-bare cargo build --offline -q --no-default-features || exit 1
