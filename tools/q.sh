#!/bin/bash
# q.sh P09 [args]: run with a short report
p=$1; shift
PBT_SUMMARY=1 python3 "$(dirname "$0")/run.py" $p ${@:-quick} 2>&1 | grep -v "note:\|In file included\|required from" | cut -c1-${W:-500} | head -${L:-60}
