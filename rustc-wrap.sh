#!/bin/sh
# Instruments the crate under test only: block edges, loads and stores call back into the simulator.
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ] && [ "$a" = satellite ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores
  fi
  prev="$a"
done
exec "$rustc" "$@"
