#!/bin/bash
# Builds the instrumented program from the current tree of /repo and runs the
# simulation harness.
#   run.sh check  PROPERTY quick|thorough [extra flags]
#   run.sh replay FILE
#   run.sh hashes|case PROPERTY [flags]
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
. "$VERIF/env.sh"
T="$(mktemp -d "${TMPDIR:-/tmp}/starbow-dst.XXXXXX")" || exit 2
trap 'rm -rf "$T"' EXIT
bin="${VERIF_BIN:-}"
if [ -z "$bin" ]; then
  bin="$T/bin"
  "$VERIF/build.sh" "$REPO" "$T" "$bin" || { echo "cannot build the instrumented program" >&2; exit 2; }
fi
mode="$1"; shift
case "$mode" in
  check)
    prop="$1"; tier="$2"; shift 2
    mkdir "$T/w"
    "$bin" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$VERIF" -scratch "$T/w" "$@"
    ;;
  replay) "$bin" replay -file "$1" ;;
  hashes|case) prop="$1"; shift; "$bin" "$mode" -prop "$prop" -seed "${VERIF_SEED:-1}" "$@" ;;
  *) echo "unknown mode $mode" >&2; exit 2 ;;
esac
