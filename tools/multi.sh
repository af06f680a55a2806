#!/bin/bash
# tools/multi.sh "C01 C02" "1 2 3"  - runs checks over several seeds, prints the last lines
cd "$(dirname "$0")/.."
for p in $1; do for s in $2; do VERIF_SEED=$s ./run.sh $p 2>&1 | tail -2 | cut -c1-600; done; done
