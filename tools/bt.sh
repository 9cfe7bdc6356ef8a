#!/bin/bash
# bt.sh FILE: back trace of a crashing replay
f=$(realpath $1); p=$(basename $f | cut -d- -f1); b=$(ls /verif/build/bin/${p}_*)
QT_QPA_PLATFORM=offscreen gdb -q -batch -ex "set follow-fork-mode child" -ex "set detach-on-fork on" -ex run -ex "bt 14" --args $b --replay $f -v 2>&1 | grep -E "^#|SIG|Assert" | cut -c1-220
