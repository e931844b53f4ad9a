#!/bin/bash
# usage: fuzz.sh ID DURATION: coverage-guided fuzzing of the generators of a property, seeded with generated cases
set -u
ID="${1:?}"; DUR="${2:-60s}"
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. ./env.sh
W="$(mktemp -d /tmp/verif-fuzz-XXXXXX)" || exit 3
trap '/bin/rm -rf "$W"' EXIT
( cd harness && CGO_ENABLED=0 go build -o "$W/harness" . && CGO_ENABLED=0 go test -c -fuzz=FuzzProp -o "$W/fuzz" . ) >&2 || { echo "check error: fuzz build failed" >&2; exit 3; }
mkdir -p "$W/cache"
( cd "$W" && FUZZ_PROP="$ID" FUZZ_OUT="$W" VERIF_SEED="${VERIF_SEED:-1}" GOMAXPROCS=2 timeout -k 10 3600 ./fuzz \
  -test.run='^$' -test.fuzz='^FuzzProp$' -test.fuzzcachedir="$W/cache" -test.fuzztime="$DUR" -test.fuzzminimizetime=1x -test.parallel="${VERIF_FUZZJOBS:-8}" -test.timeout=0 ) >"$W/log" 2>&1
grep -a "execs" "$W/log" | tail -1
"$W/harness" fuzzdone "$ID" "$W"
RC=$?
[ $RC -eq 0 ] && grep -aq "^FAIL\|^panic" "$W/log" && { tail -30 "$W/log" >&2; echo "check error: fuzzing ended abnormally" >&2; RC=3; }
exit $RC
