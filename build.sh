# Sourced: builds the simulator and sets SIM.
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/sim/target"
TRIPLE=x86_64-unknown-linux-gnu
export RUSTFLAGS="-Awarnings -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
cargo build -q --release --offline --locked --target "$TRIPLE" --manifest-path sim/Cargo.toml
BUILD_RC=$?
SIM="$PWD/sim/target/$TRIPLE/release/sim"
[ "$BUILD_RC" = 0 ]
