# environment of every build
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
RACE_IDS="@(C36)"
shopt -s extglob
