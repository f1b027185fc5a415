#!/bin/bash
# Builds demo.rs against the hyperborealib of the current folder and runs it
# in a scratch folder: 0 when the property holds, else not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src" "$work/scratch"
for file in "$here"/*.rs; do cp "$file" "$work/demo/src/"; done; mv "$work/demo/src/demo.rs" "$work/demo/src/main.rs"
rm -f "$work/demo/src/upnp.rs"
cp "$repo/Cargo.lock" "$work/demo/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock.generated "$work/demo/Cargo.lock"

cat > "$work/demo/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
hyperborealib = { path = "$repo" }
tokio = { version = "1", features = ["rt-multi-thread", "macros", "time", "net", "io-util"] }
serde_json = "1"
async-trait = "0.1"
END

# a gateway in memory instead of a real one
if [ -f "$here/upnp.rs" ]; then
    mkdir -p "$work/fake/src"
    cp "$here/upnp.rs" "$work/fake/src/lib.rs"
    printf '[package]\nname = "easy-upnp"\nversion = "0.2.1"\nedition = "2021"\n' > "$work/fake/Cargo.toml"
    printf '[dependencies.easy-upnp]\nversion = "0.2"\n\n[patch.crates-io]\neasy-upnp = { path = "%s" }\n' "$work/fake" >> "$work/demo/Cargo.toml"
fi

cd "$work/demo" || exit 2
CARGO_TARGET_DIR="$repo/target" cargo build --offline -q || exit 2
cp "$repo/target/debug/demo" "$work/run" || exit 2
cd "$work/scratch" || exit 2
TMPDIR="$work/scratch" timeout 200 "$work/run"
