#!/bin/bash
# build.sh REPO SCRATCH OUT: instruments REPO's current tree into SCRATCH and
# builds the simulation binary OUT. Writes nothing in REPO.
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="$1"; T="$2"; OUT="$3"
. "$VERIF/env.sh"
cd "$VERIF/instr" && go build -o "$T/instr" . || exit 1
cp "$REPO/go.mod" "$T/go.mod" || exit 1
[ -f "$REPO/go.sum" ] && cp "$REPO/go.sum" "$T/go.sum"
# the simulator needs generics; up to 1.20 the language and the runtime defaults
# (GODEBUG) are the same as for the repository's own go directive
v="$(sed -n 's/^go 1\.\([0-9]*\).*/\1/p' "$T/go.mod")"
if [ -z "$v" ] || [ "$v" -lt 20 ]; then sed -i -e '/^go 1\./d' "$T/go.mod"; echo "go 1.20" >>"$T/go.mod"; fi
for level in 2 1; do
  rm -rf "$T/o"; mkdir "$T/o"
  "$T/instr" -repo "$REPO" -out "$T/o" -modfile "$T/go.mod" -vsim "$VERIF/vsim" -harness "$VERIF/harness" -want e2e,conc,sketch -level $level >"$T/instr.log" 2>&1 &&
    (cd "$REPO" && go build -overlay "$T/o/overlay.json" -modfile "$T/go.mod" -buildvcs=false -o "$OUT" .) >"$T/build.log" 2>&1 && exit 0
  echo "instrumentation level $level does not build:" >&2
  head -30 "$T/instr.log" "$T/build.log" >&2
done
exit 1
