#!/bin/bash
# usage: check.sh ID quick|thorough      check.sh ID replay FILE
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: the check itself failed.
set -u
ID="${1:?}"; MODE="${2:?}"
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. ./env.sh
BIN="$(mktemp -d /tmp/verif-bin-XXXXXX)" || exit 3
trap '/bin/rm -rf "$BIN"' EXIT
RACE=""
case "$ID" in
  $RACE_IDS) RACE="-race";;
esac
( cd harness && CGO_ENABLED=$([ -n "$RACE" ] && echo 1 || echo 0) go build $RACE -o "$BIN/harness" . ) >&2 || { echo "check error: build failed" >&2; exit 3; }
case "$MODE" in
  replay) "$BIN/harness" replay "${3:?}"; exit $?;;
  quick|thorough) ;;
  *) exit 3;;
esac
"$BIN/harness" run "$ID" "$MODE"
RC=$?
[ $RC -eq 0 ] && [ -f known_findings.txt ] && grep -q "^KNOWN-FINDING: property=$ID " known_findings.txt && grep "^KNOWN-FINDING: property=$ID " known_findings.txt
if [ $RC -eq 0 ] && [ "$MODE" = thorough ] && [ -z "$RACE" ] && [ "${VERIF_NOFUZZ:-}" = "" ]; then
  ./fuzz.sh "$ID" "${VERIF_FUZZTIME:-120s}"
  RC=$?
fi
exit $RC
