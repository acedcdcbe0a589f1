#!/bin/sh
# builds the extractor and the witness harness; every check can also do this by itself
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
(cd vx && cargo build --release --offline -q)
(cd witness && RUSTFLAGS="--cfg chanoma_verif" cargo build --release --offline -q)
