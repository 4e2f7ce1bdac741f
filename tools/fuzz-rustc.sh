#!/bin/bash
# RUSTC_WRAPPER of the coverage-guided build: instruments the libraries under test (and the two they
# decode with), and links libFuzzer into the harness.
rustc="$1"; shift
name=
for ((i = 1; i < $#; i++)); do
    [ "${!i}" = --crate-name ] && { j=$((i + 1)); name="${!j}"; }
done
case "$name" in
    commit_verify | single_use_seals | client_side_validation | commit_encoding_derive | amplify | amplify_num | amplify_apfloat | strict_encoding | ascii_armor | baid64)
        case " $* " in *" proc-macro "*) exec "$rustc" "$@" ;; esac
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
            -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
            -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 ;;
    csvcheck)
        exec "$rustc" "$@" -Clink-arg="$CSV_LIBFUZZER" -Clink-arg=-lstdc++ ;;
esac
exec "$rustc" "$@"
