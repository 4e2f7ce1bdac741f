#!/bin/bash
# Wrapper of rustc for the crate of /verif/derive: records what the crate is linked with.
args=("$@")
case " $* " in
    *" --crate-name csv_derive "*)
        for ((i = 0; i < $#; i++)); do
            case "${args[i]}" in
                --extern) printf -- '--extern\n%s\n' "${args[i + 1]/%.rmeta/.rlib}" ;;
                -L) printf -- '-L\n%s\n' "${args[i + 1]}" ;;
            esac
        done >"$CSV_EXTERNS" ;;
esac
exec "$@"
