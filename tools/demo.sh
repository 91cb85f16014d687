#!/bin/bash
# builds and runs the program beside this script against the repository in the current directory
set -e
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
mkdir "$t/src"
cp "$d/main.rs" "$t/src/main.rs"
{
  echo '[package]'; echo 'name = "demo"'; echo 'version = "0.1.0"'; echo 'edition = "2021"'; echo '[workspace]'; echo '[dependencies]'
  for c in "$r"/crates/*/; do n=$(basename "$c"); case $n in parcom) ;; *) echo "$n = { path = \"$c\" }";; esac; done
} > "$t/Cargo.toml"
cd "$t"
CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline --quiet 2>"$t/err" || { c=$?; tail -30 "$t/err"; rm -rf "$t/target"; exit $c; }
rm -rf "$t/target"
