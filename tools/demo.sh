#!/bin/bash
# Builds pact_models from the current tree with the program beside this file and runs it: 0 when the property holds.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/ws/demo/src"
cp -r "$repo/rust/pact_models" "$work/ws/pact_models"
python3 - "$work/ws/pact_models/Cargo.toml" <<'P'
import re, sys
f = sys.argv[1]; s = open(f).read()
open(f, "w").write(re.sub(r'(?ms)^\[target\.[^\n]*not\(target_family = "wasm"\)[^\n]*\]\n.*?(?=^\[|\Z)', "", s))
P
cp "$repo/rust/Cargo.lock" "$work/ws/Cargo.lock"
cp "$here/demo.rs" "$work/ws/demo/src/main.rs"
printf '[workspace]\nmembers = ["pact_models", "demo"]\nresolver = "2"\n[profile.dev]\ndebug = 0\n' > "$work/ws/Cargo.toml"
cat > "$work/ws/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
pact_models = { path = "../pact_models", default-features = false, features = ["datetime", "form_urlencoded"] }
serde_json = "1"
bytes = "1"
maplit = "1"
T
cat > "$work/run.mjs" <<'J'
import { readFile } from 'node:fs/promises'
import { WASI } from 'node:wasi'
const wasi = new WASI({ version: 'preview1', args: ['demo'], env: { RUST_BACKTRACE: '0' }, returnOnExit: true })
const m = await WebAssembly.compile(await readFile(process.argv[2]))
const i = await WebAssembly.instantiate(m, wasi.getImportObject())
process.exit(wasi.start(i))
J
cd "$work/ws"
export RUSTUP_TOOLCHAIN=1.89.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$work/target" RUSTC_WRAPPER= RUSTFLAGS="-A warnings" TZ=UTC
cargo build --offline -q --target wasm32-wasip1 -p demo
timeout 60 node --no-warnings "$work/run.mjs" "$work/target/wasm32-wasip1/debug/demo.wasm"
