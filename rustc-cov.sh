#!/bin/sh
# Compiler wrapper: every basic block of the library, and of the crates that instantiate its generics,
# calls the scheduler's hook (simcov).
rustc=$1
shift
case " $* " in
  *" --crate-name build_script_build "*) ;;
  *" --crate-name schemars "* | *" --crate-name sim "* | *" --crate-name schemars_derive --edition"*" --crate-type lib "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc ;;
esac
exec "$rustc" "$@"
