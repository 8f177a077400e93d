#!/bin/bash
# builds the engine and the dependencies of the harness once (every check rebuilds what it needs itself)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
python3 - <<'P'
import sys, os, tempfile; sys.path.insert(0, ".")
import check
check.build_engine()
with tempfile.TemporaryDirectory() as d:
    check.build_ir("probe", d); check.build_native("probe", d)
P
