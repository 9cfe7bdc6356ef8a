#!/bin/bash
# sweep.sh P01 [nseeds] [tier]   run one check with several seeds, print failures only
p=$1; n=${2:-8}; t=${3:-quick}
for s in $(seq 1 $n); do VERIF_SEED=$s PBT_SUMMARY=1 python3 "$(dirname "$0")/run.py" $p $t 2>&1 | grep -v "^    " ; done
