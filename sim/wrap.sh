#!/bin/bash
# RUSTC_WRAPPER: only the crate under test gets LLVM's trace-pc-guard and trace-loads/-stores callbacks (the simulator's scheduling points).
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
if [ "$name" = mortal ]; then
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Cllvm-args=-sanitizer-coverage-prune-blocks=0
fi
exec "$rustc" "$@"
