#!/bin/bash
# scratch.sh FILE.cpp [libs]: compile a small program against the checks' libraries and run it
cd /verif; python3 - "$1" "${2:-VirtualRobot}" <<'P'
import sys, subprocess, os
sys.path.insert(0,'/verif/tools'); import build
libs=sys.argv[2].split(',')
o='/tmp/scratch_bin'
cmd=['g++']+build.OPT+build.DEFS+['-I/verif/harness']+build.INC+[sys.argv[1],'/verif/harness/engine/pbt.cpp','-o',o,'-L/verif/build/lib','-Wl,-rpath,/verif/build/lib']+['-l'+l for l in libs]+(build.BULLET if 'SimDynamics' in libs else [])+build.LIBS
r=subprocess.run(cmd,stderr=subprocess.PIPE)
if r.returncode: print('\n'.join(l for l in r.stderr.decode().split('\n') if 'error' in l or 'undefined' in l)); sys.exit(1)
sys.exit(subprocess.run([o],env=dict(os.environ,QT_QPA_PLATFORM='offscreen')).returncode)
P
