# Sourced by check.sh, replay.sh and setup.sh: an offline Go environment.
export HOME=/root PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin LANG=C.UTF-8
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off CGO_ENABLED=0
export GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOFLAGS=-mod=mod
unset GOENV GOROOT
