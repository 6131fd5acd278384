#!/bin/bash
# Nothing is kept between runs: this only proves that the harness builds here.
cd "$(dirname "$0")/harness" && . /opt/vp/env.inc && cd - >/dev/null && cd "$(dirname "$0")/harness" 2>/dev/null || cd /verif/harness
export CARGO_TARGET_DIR=/verif/harness/target
cargo fetch --offline >/dev/null 2>&1
cargo build --offline --quiet --bin c01
