#!/bin/bash
# builds the harness once (checks rebuild incrementally from /repo's working tree)
cd "$(dirname "$0")" || exit 2
. ./env.sh
cargo build --offline --manifest-path harness/Cargo.toml --bins || exit 1
cargo build --offline --manifest-path harness/Cargo.toml --profile rel --bin td --bin tdtraffic --bin catchup --bin misc || exit 1
# travel time functions approximated from eight points on
CARGO_TARGET_DIR=$PWD/target/apx TDCCH_APPROX_THRESHOLD=8 cargo build --offline --manifest-path harness/Cargo.toml --profile rel --bin catchup || exit 1
# the command line tools and the server
CARGO_TARGET_DIR=$PWD/target/ws CARGO_PROFILE_DEV_DEBUG=0 cargo build --locked --offline --manifest-path /repo/Cargo.toml -p server -p conversion --bins || exit 1
# the programs which prepare data and run experiments
CARGO_TARGET_DIR=$PWD/target/tools CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true cargo build --locked --offline --manifest-path /repo/Cargo.toml -p utils -p conversion -p cchpp -p tdpot -p catchup -p chpot $(sed 's/^/--bin /' checks/tools.txt) || exit 1
cargo build --offline --manifest-path convh/Cargo.toml || exit 1
# everything once more with AddressSanitizer
RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" CARGO_TARGET_DIR=$PWD/target/asan cargo build --offline --manifest-path harness/Cargo.toml --target x86_64-unknown-linux-gnu --profile rel --bins || exit 1
cargo build --offline --manifest-path harness/Cargo.toml --profile rel --bins || exit 1
