#!/bin/bash
# check.sh PROPERTY TIER: builds the simulator from the current tree of /repo
# and decides one property. Exit 0: held; 1: violation; 2: trouble of the check.
mkdir -p /verif/.build
exec 9>/verif/.build/lock
flock 9
/verif/sim/build.sh >/verif/.build/build.log 2>&1 || { cat /verif/.build/build.log >&2; echo "check trouble: build failed" >&2; exit 2; }
flock -u 9
exec /verif/.build/vsim check -prop "$1" -tier "${2:-quick}"
