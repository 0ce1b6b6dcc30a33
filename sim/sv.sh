#!/bin/bash
# Development aid: rebuild and tabulate violations. sv.sh PROP [N] [BASE]
. /verif/sim/env.sh; cd /verif/sim && ./build.sh || exit 2
/verif/.build/vsim survey -prop $1 -n ${2:-4000} -base ${3:-1} 2>&1 | cut -c1-400
