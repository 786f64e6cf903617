#!/bin/bash
cd "$(dirname "$0")/driver" || exit 2
CARGO_TARGET_DIR=../target/driver cargo +nightly build --offline
