#!/bin/sh
# Compiler wrapper: the crate under test calls the simulator at every edge of its control flow, and before
# every access to memory that is not its own (sim/simcore/src/shared.rs).
rustc=$1; shift
case " $* " in
*" --crate-name plain "*) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Z sanitizer=thread -Z external-clangrt -Z unstable-options -C unsafe-allow-abi-mismatch=sanitizer -C llvm-args=-tsan-instrument-func-entry-exit=0 -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
*" --crate-name expander "*) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Z unstable-options -C unsafe-allow-abi-mismatch=sanitizer ;;
*) exec "$rustc" "$@" ;;
esac
