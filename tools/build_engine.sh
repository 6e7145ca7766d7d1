#!/bin/bash
cd "$(dirname "$0")/../engine" && RUSTUP_TOOLCHAIN=stable cargo build --release --offline --target-dir ../build/engine "$@"
