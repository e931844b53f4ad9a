#!/bin/bash
# builds the harness once, to fail early and to warm the build cache
cd "$(dirname "$0")" || exit 3
. ./env.sh
D="$(mktemp -d)" || exit 3
trap '/bin/rm -rf "$D"' EXIT
cd harness && CGO_ENABLED=0 go build -o "$D/h" . && "$D/h" list >/dev/null && CGO_ENABLED=1 go build -race -o "$D/hr" .
