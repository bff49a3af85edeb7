#!/bin/bash
# rustc wrapper of the instrumented build: the library under test calls back on every load and store
rustc="$1"; shift
case " $* " in *" --crate-name stratum_dsp "*)
  exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=1 \
    -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores;;
esac
exec "$rustc" "$@"
