#!/bin/bash
# RUSTC_WRAPPER: the crate under test alone is compiled with preemption points
# (sanitizer-coverage callbacks on every basic block, load and store).
case " $* " in
*" --crate-name solstrale "*)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-stores -Cllvm-args=-sanitizer-coverage-trace-loads ;;
*) exec "$@" ;;
esac
