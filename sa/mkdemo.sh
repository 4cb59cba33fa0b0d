#!/bin/bash
# cwd: the repository. Builds demo.rs (beside this file) against it and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
unic = { path = "$R/unic", features = ["serde"] }
unic-ucd-ident = { path = "$R/unic/ucd/ident", features = ["id", "pattern"] }
unic-char-range = { path = "$R/unic/char/range", features = ["std", "rayon"] }
unic-idna-mapping = { path = "$R/unic/idna/mapping" }
unic-idna-punycode = { path = "$R/unic/idna/punycode" }
unic-bidi = { path = "$R/unic/bidi", features = ["serde"] }
serde_json = "1"
rayon = "1.3"
X
cd "$T"; CARGO_TARGET_DIR="$T/target" cargo run --offline -q
