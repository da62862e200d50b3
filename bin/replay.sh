#!/bin/bash
# replay.sh FILE: run one recorded execution again with a trace
f="$1"; here="$(cd "$(dirname "$0")" && pwd)"
fl=$(awk '$1=="flavour"{print $2}' "$f"); pr=$(awk '$1=="program"{print $2}' "$f"); sc=$(awk '$1=="scenario"{print $2}' "$f")
exe=$(python3 "$here/build.py" "$fl" "$pr") || exit 2
args=(); while read -r a; do args+=(-o "$a"); done < <(awk '$1=="arg"{print substr($0,5)}' "$f")
exec "$exe" -s "$sc" "${args[@]}" -replay "$f" -trace
