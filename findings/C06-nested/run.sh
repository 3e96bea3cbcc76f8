#!/bin/bash
# Run in /repo after a build: writes one file and prints its row index (see DESIGN.md, open findings).
D=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
R=$(ls -t "$PWD"/target/debug/deps/liborc_format-*.rlib | head -1)
rustc --edition 2018 -A warnings -o "$T/demo" "$D/demo.rs" --extern orc_format="$R" -L dependency="$PWD/target/debug/deps" || exit 3
mkdir "$T/out" && (cd "$T" && timeout 200 ./demo "$T/out") || exit 1
if [ -e "$D/demo.py" ]; then PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$D" timeout 200 python3 "$D/demo.py" "$T/out" || exit 1; fi
