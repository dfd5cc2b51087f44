#!/bin/bash
# Runs demo.rs as an integration test of PKG in the current directory.
PKG=@PKG@
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
name=vpdemo_$$
mkdir -p $PKG/tests
trap 'rm -f "$PWD/$PKG/tests/$name.rs"; rmdir "$PWD/$PKG/tests" 2>/dev/null' EXIT
cp "$here/demo.rs" $PKG/tests/$name.rs
cargo test --workspace --offline --locked --test $name -- --test-threads 1
