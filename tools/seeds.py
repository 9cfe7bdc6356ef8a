#!/usr/bin/env python3
"""Author's notebook of planted bugs: (re)creates seeded/<id> from edit scripts in tools/seeds.d/*.py.
usage: seeds.py ID..."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:]:
    ns = {}
    exec(open(V + "/tools/seeds.d/%s.py" % i).read(), ns)
    T = tempfile.mkdtemp(prefix="/tmp/mk_")
    subprocess.run(["git", "clone", "-q", "/repo", T + "/r"], check=True)
    for f, a, b in ns["edits"]:
        p = T + "/r/" + f
        s = open(p).read()
        assert s.count(a) == 1, (i, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    subprocess.run([sys.executable, V + "/tools/mkseed.py", i, ns["prop"]], cwd=T + "/r", check=True,
                   input=json.dumps({"demo": ns["demo"], "needs": ns["needs"], "breaks": ns["breaks"], "libs": ns.get("libs", "V")}).encode())
    shutil.rmtree(T)
    print("made", i)
