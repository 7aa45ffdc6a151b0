#!/bin/bash
# Checks that the harness builds from /repo's current tree; every check builds again.
set -u
cd "$(dirname "${BASH_SOURCE[0]}")"
T="$(mktemp -d "${TMPDIR:-/tmp}/starbow-dst.XXXXXX")" || exit 2
trap 'rm -rf "$T"' EXIT
./build.sh "${VERIF_REPO:-/repo}" "$T" "$T/bin"
