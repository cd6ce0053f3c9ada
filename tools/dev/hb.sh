#!/bin/bash
. /opt/vp/env.sh; cd /verif/harness; export CARGO_TARGET_DIR=/verif/.target/harness; cargo build --offline 2>&1 | grep -E '^error|-->|^\s+\|' | head -${1:-40}
