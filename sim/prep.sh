#!/bin/bash
# Regenerates the overlay from the current tree. usage: prep.sh REPO OUT
set -e
. /verif/sim/env.sh
cd /verif/sim
mkdir -p /verif/.build
go build -o /verif/.build/simprep ./cmd/simprep
/verif/.build/simprep -goroot $GOROOT -repo ${1:-/repo} -util $GOMODCACHE/github.com/aperturerobotics/util@v1.30.0 -out /verif/.build/gen -sched simsched.go.txt -daemon /verif/sim/daemon
