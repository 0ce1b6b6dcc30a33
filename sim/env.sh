# Toolchain of the simulator build (sourced).
export GOROOT=/opt/veriftools/go1.25.14
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${SIM_GOCACHE:-/verif/.build/gocache}
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
