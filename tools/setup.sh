#!/bin/bash
# Builds the engine (checks would do so themselves) and runs its self-test.
set -e
cd "$(dirname "$0")/.."
bash tools/build_engine.sh
build/engine/release/symex --selftest
