#!/bin/bash
# Builds what the checks need, so that the first check finds it.
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence replays
(cd extract && CARGO_TARGET_DIR=../.build/extract RUSTFLAGS= cargo build --offline -q --release) || true
(cd refute && CARGO_TARGET_DIR=../.build/refute RUSTFLAGS="--cap-lints warn --cfg tokio_unstable --cfg haproxy_verif" cargo build --offline -q --features hook) || true
exit 0
