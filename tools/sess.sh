#!/bin/bash
# sess.sh 'command'   run a command with /repo and /verif replaced by working copies in /tmp/w (while vcheck reads the real ones)
# sess.sh merge       bring the commits of the copies back
W=/tmp/w
if [ "$1" = merge ]; then git -C /repo pull -q --ff-only $W/repo HEAD && git -C /verif pull -q --ff-only $W/verif HEAD && cp -a $W/verif/build/. /verif/build/; exit; fi
mkdir -p $W
[ -d $W/repo ] || { cp -a /repo $W/repo; cp -a /verif $W/verif; }
unshare -Urm bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && $1"
