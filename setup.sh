#!/bin/bash
# builds the MIR driver and warms the dependency builds of every analysed configuration
cd "$(dirname "$0")"
mkdir -p .build evidence
for c in default none serialize all noassert probe; do
  ./dump.sh "$PWD/.build/setup.json" $c || exit 1
  rm -f "$PWD/.build/setup.json"
done
