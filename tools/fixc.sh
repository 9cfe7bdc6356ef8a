#!/bin/bash
# fixc.sh Pxx "what failed" "commit message": commit all changes in /repo as a fix and record it
cd /repo && git add -A && git commit -qm "fix: $3" && echo "fixed: property=$1 $(git log --format=%h -1) $2" >> /verif/known-findings.txt
