# Go environment of the checks: offline, the toolchain the repository is built with.
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
