#!/usr/bin/env python3
"""mkseed.py ID PROP FILE... : make seeded/ID from the current uncommitted change of a scratch copy
   (cwd = scratch copy of /repo); demo.cpp, needs, breaks come from stdin as JSON."""
import sys, os, json, subprocess
DEMO = '''#!/bin/bash
# builds demo.cpp against the libraries of /repo/_build and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'find "$W" -delete' EXIT
export QT_QPA_PLATFORM=offscreen LC_ALL=C
Q=/usr/include/x86_64-linux-gnu/qt5
g++ -w -O0 -fPIC -DUSE_NLOPT -DQT_NO_DEBUG -DCOIN_DLL -DSOQT_DLL -DSIMOX_USE_SOQT -DNDEBUG -DBOOST_NO_CXX11_SCOPED_ENUMS '-DSimox_DATA_PATH="data"' '-DVirtualRobot_SRC_DATA_PATH="/repo/VirtualRobot/data"' \\
    -DgetMotorTargetVelosity=getMotorTargetVelocity -DgNumDeepPenetrationChecks=gNumClampedCcdMotions -DgNumGjkChecks=gNumClampedCcdMotions \\
    -I/repo -I/repo/_build -I/repo/GraspPlanning/ExternalDependencies/qhull-2003.1/include -I/usr/include/bullet -I/usr/include/eigen3 \\
    -I$Q -I$Q/QtGui -I$Q/QtCore -I$Q/QtOpenGL -I$Q/QtWidgets \\
    "$D/demo.cpp" -o "$W/demo" -L/repo/_build/lib %s -lnlopt -lboost_filesystem -lboost_system -lboost_thread -lCoin -lSoQt -lQt5OpenGL -lQt5Widgets -lQt5Gui -lQt5Core -lGL -lpthread -Wl,-rpath,/repo/_build/lib || exit 3
cd "$W" && timeout 200 ./demo
'''
LIBS = {"V": "-lVirtualRobot", "M": "-lSaba -lVirtualRobot", "G": "-lGraspStudio -lSaba -lVirtualRobot", "S": "-lSimDynamics -lVirtualRobot -lBulletDynamics -lBulletSoftBody -lBulletCollision -lLinearMath"}
d = json.load(sys.stdin)
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", sys.argv[1])
os.makedirs(S, exist_ok=True)
diff = subprocess.run(["git", "diff"], stdout=subprocess.PIPE, check=True).stdout
assert diff
open(S + "/patch.diff", "wb").write(diff)
open(S + "/demo.cpp", "w").write(d["demo"])
open(S + "/demo.sh", "w").write(DEMO % LIBS[d.get("libs", "V")])
os.chmod(S + "/demo.sh", 0o755)
json.dump({"property": sys.argv[2], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(S + "/meta.json", "w"), indent=1)
