#!/bin/bash
# Builds the extractor and the replay driver from the committed files (checks rebuild what they need themselves).
set -e
cd "$(dirname "$0")"
(cd extract && CARGO_TARGET_DIR=../.target/extract cargo build --offline -q)
H=$PWD
. /opt/vp/env.sh >/dev/null 2>&1
cd $H/harness && CARGO_TARGET_DIR=$H/.target/harness cargo build --offline -q 2>/dev/null
