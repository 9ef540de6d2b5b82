# Sourced by the checks: the toolchain of /opt/vp/env.sh, without its cd.
V=/opt/veriftools/go1.23.12
unset GOROOT GOENV GOWORK
export HOME=/root PATH=$V/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
