#!/bin/sh
# rustc wrapper: coverage instrumentation for the library and the program only
case " $* " in
    *" --crate-name fawkes_crypto "* | *" --crate-name fawkes_fuzz "*)
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$@"
