#!/bin/bash
# builds the harness from the committed files (each check builds again what it needs)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
exec cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir target
