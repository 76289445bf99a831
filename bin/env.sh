# Environment for building and running; sourced.
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOPATH=${GOPATH:-/root/go}
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
