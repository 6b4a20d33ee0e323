#!/bin/sh
# Cargo's RUSTC_WRAPPER for the fuzzing build: coverage instrumentation in the library only.
case " $* " in
*" --crate-name text_encoding "*)
    exec "$@" -Ccodegen-units=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
        -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
esac
exec "$@"
