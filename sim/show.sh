#!/bin/bash
# Development aid: print the history of one seed. show.sh PROP SCN SEED
/verif/.build/vsim one -show -prop $1 -scn $2 -seed $3 2>/dev/null
