#!/bin/sh
# RUSTC_WRAPPER: makes the scheduler see the memory accesses of hyperdrive and of the code it generates.
rustc="$1"
shift
prev=
crate=
for a in "$@"; do
    [ "$prev" = --crate-name ] && crate="$a"
    prev="$a"
done
case "$crate" in
hyperdrive | router | lazy_static)
    exec "$rustc" "$@" "-Cpasses=function(tsan),sancov-module" -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
    ;;
esac
exec "$rustc" "$@"
