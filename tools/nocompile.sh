#!/bin/bash
# succeeds if control.rs beside this script compiles against the repository in the current directory and main.rs does not
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
mkdir "$t/src"
{
  echo '[package]'; echo 'name = "demo"'; echo 'version = "0.1.0"'; echo 'edition = "2021"'; echo '[workspace]'; echo '[dependencies]'
  for c in "$r"/crates/*/; do n=$(basename "$c"); case $n in parcom) ;; *) echo "$n = { path = \"$c\" }";; esac; done
} > "$t/Cargo.toml"
cd "$t"
sed '/^\/\/ BEGIN FORBIDDEN/,/^\/\/ END FORBIDDEN/d' "$d/main.rs" > "$t/src/main.rs"
CARGO_TARGET_DIR="$t/target" timeout 120 cargo check --offline --quiet 2>"$t/err" || { tail -30 "$t/err"; rm -rf "$t/target"; exit 2; }
cp "$d/main.rs" "$t/src/main.rs"
if CARGO_TARGET_DIR="$t/target" timeout 120 cargo check --offline --quiet 2>"$t/err"; then
  echo 'a program that must be rejected compiles'; rm -rf "$t/target"; exit 1
fi
rm -rf "$t/target"
exit 0
