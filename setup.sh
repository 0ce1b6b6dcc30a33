#!/bin/bash
# Warms the build cache; every check builds by itself as well.
exec /verif/sim/build.sh
