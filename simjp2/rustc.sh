#!/bin/sh
# In the traced variant the codec (and only the codec) is compiled with a call at every basic block.
case " $* " in
*" --crate-name openjp2 "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Ccodegen-units=1 ;;
*) exec "$@" ;;
esac
