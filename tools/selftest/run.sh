#!/bin/bash
# dumps the self-test crate in a scratch directory and evaluates every function with the template interpreter:
# each of them is true for every input (cargo test checks the same of the real code for sample inputs)
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$t/"
REPO=$t VERIF_BUILD=$t/.b bash "$here/../../dump.sh" "$t/d.json" default || exit 3
SELFTEST_DUMP=$t/d.json python3 "$here/selftest.py" "$@"
