#!/bin/bash
# Builds the simulator from the current tree of /repo: .build/vsim and, with
# the race detector, .build/vsim-race.
set -e
. /verif/sim/env.sh
/verif/sim/prep.sh /repo
cd /verif/sim
go build -overlay /verif/.build/gen/overlay.json -o /verif/.build/vsim ./cmd/vsim &
p=$!
go build -race -overlay /verif/.build/gen/overlay.json -o /verif/.build/vsim-race ./cmd/vsim
wait $p
