set -e
export MIRSYM_ARGS=/verif/build/args
cd /verif/harness
export RUSTC_WRAPPER=/verif/engine/wrap.sh CARGO_TARGET_DIR=/verif/build/mir
export RUSTFLAGS="-Zalways-encode-mir --sysroot /root/.cache/miri -Coverflow-checks=on -Cdebug-assertions=off"
cargo +nightly check --offline --lib --target x86_64-unknown-linux-gnu "$@" 2>&1 | grep -vE "Checking|Compiling|Fresh"
