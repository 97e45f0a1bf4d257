#!/bin/bash
# Run with cwd = the repository. Exit 0: the property held; 1: it did not; 2: the demonstration could not run.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'find "$w" -depth -delete 2>/dev/null' EXIT
cp -r "$here/stubs" "$here/src" "$w/" || exit 2
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cp "$here/Cargo.lock.in" "$w/Cargo.lock"
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2> "$w/build.log" || { tail -40 "$w/build.log"; exit 2; }
mkdir "$w/scratch" && cd "$w/scratch" || exit 2
timeout 200 "$w/target/debug/demo"
r=$?
if [ $r -eq 0 ]; then exit 0; fi
exit 1
