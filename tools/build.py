#!/usr/bin/env python3
"""Build the libraries of /repo's working tree and the harness binaries, outside /repo.

Objects are reused when the content of every file they depend on is unchanged (content hashes, not time stamps);
otherwise they go through ccache when it is there, and are compiled when it is not or has no entry.
"""
import os, re, sys, json, hashlib, subprocess, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIMOX_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OBJ = os.path.join(B, "obj")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
COV = os.environ.get("VERIF_COV") == "1"

DEFS = ['-DBOOST_NO_CXX11_SCOPED_ENUMS', '-DQT_CORE_LIB', '-DQT_GUI_LIB', '-DQT_NO_DEBUG', '-DQT_OPENGL_LIB', '-DQT_WIDGETS_LIB',
        '-DSimox_DATA_PATH="data"', '-DSimox_TEST_DIR="/repo/_build/bin/tests/"', '-DUSE_NLOPT',
        '-DVirtualRobot_SRC_DATA_PATH="%s/VirtualRobot/data"' % REPO, '-DBOOST_ALL_NO_LIB',
        '-DBOOST_PROGRAM_OPTIONS_DYN_LINK', '-DBOOST_FILESYSTEM_DYN_LINK', '-DBOOST_SYSTEM_DYN_LINK',
        '-DBOOST_THREAD_DYN_LINK', '-DCOIN_DLL', '-DSOQT_DLL', '-DSIMOX_USE_SOQT', '-DNDEBUG',
        '-DgetMotorTargetVelosity=getMotorTargetVelocity', '-DgNumDeepPenetrationChecks=gNumClampedCcdMotions',
        '-DgNumGjkChecks=gNumClampedCcdMotions']
QT = '/usr/include/x86_64-linux-gnu/qt5'
INC = ['-I' + REPO, '-I' + REPO + '/_build', '-I' + REPO + '/VirtualRobot/CollisionDetection/PQP',
       '-I' + REPO + '/VirtualRobot/CollisionDetection/PQP/PQP++',
       '-I' + REPO + '/GraspPlanning/ExternalDependencies/qhull-2003.1/include',
       '-I/usr/include/bullet', '-I/usr/include/bullet/bullet',
       '-isystem', '/usr/include/eigen3', '-isystem', QT] + \
      sum([['-isystem', QT + '/' + m] for m in ('QtGui', 'QtCore', 'QtOpenGL', 'QtWidgets')], [])
LIBS = ['-lnlopt', '-lboost_filesystem', '-lboost_system', '-lboost_program_options', '-lboost_thread', '-lboost_atomic',
        '-lCoin', '-lSoQt', '-lQt5OpenGL', '-lQt5Widgets', '-lQt5Gui', '-lQt5Core', '-lGL', '-lpthread']
BULLET = ['-lBulletDynamics', '-lBulletSoftBody', '-lBulletCollision', '-lLinearMath', '-lGLU']
OPT = ['-w', '-fPIC', '-O1', '-D_GLIBCXX_ASSERTIONS'] + (['--coverage'] if COV else [])

SKIP = re.compile(r'GraspEditor|moc_|COLLADA|Collada|collada|OpenSceneGraph|BulletOpenGL|BulletOpenGLViewer|BulletCoinQtViewer|/Tests?/|/tests/|/examples/|BulletDebugViewer|URDF|rbdl')


def sources(lib):
    """committed list (as built by the project's own build) + whatever the lib's CMakeLists names in addition"""
    base = json.load(open(os.path.join(VERIF, "tools", "sources.json")))[lib]
    res = [s for s in base if os.path.exists(os.path.join(REPO, s)) and not SKIP.search(s)]
    top = {"VirtualRobot": "VirtualRobot", "Saba": "MotionPlanning", "GraspStudio": "GraspPlanning", "SimDynamics": "SimDynamics"}[lib]
    known = set(base)
    try:
        txt = open(os.path.join(REPO, top, "CMakeLists.txt")).read()
        ign = set(json.load(open(os.path.join(VERIF, "tools", "sources.json")))["ignored"])
        for m in re.findall(r'[A-Za-z0-9_./-]+\.cpp', txt):
            p = os.path.normpath(top + "/" + m)
            if p in known or p in ign or SKIP.search(p) or not os.path.exists(os.path.join(REPO, p)):
                continue
            res.append(p)
            known.add(p)
    except OSError:
        pass
    return res


_hash = {}


def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[p] = h
    return h


def tracked(p):
    return p.startswith(REPO + "/") or p.startswith(VERIF + "/")


def parse_dep(path):
    t = open(path).read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return sorted(set(os.path.normpath(x) for x in t.split()))


def ccache_env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(B, "ccache"), CCACHE_MAXSIZE="3G", CCACHE_SLOPPINESS="time_macros,include_file_mtime,include_file_ctime",
             CCACHE_NOHASHDIR="1", CCACHE_COMPILERCHECK="mtime" if False else "content")
    return e


CCACHE = shutil.which("ccache")


def compile_one(src, extra, objname):
    """returns (obj path, changed?)"""
    obj = os.path.join(OBJ, objname + ".o")
    stamp = obj + ".json"
    absrc = src if src.startswith("/") else os.path.join(REPO, src)
    isc = absrc.endswith(".c")
    cmd = (["gcc"] if isc else ["g++"]) + OPT + DEFS + extra + INC + ["-MD", "-MF", obj + ".d", "-c", absrc, "-o", obj]
    key = hashlib.sha1(" ".join(cmd).encode()).hexdigest()
    try:
        s = json.load(open(stamp))
        if s["cmd"] == key and os.path.exists(obj) and all(fhash(p) == h for p, h in s["deps"].items()):
            return obj, False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    try:
        os.unlink(stamp)
    except OSError:
        pass
    r = None
    if CCACHE:
        r = subprocess.run([CCACHE] + cmd, env=ccache_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r is None or r.returncode != 0:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise RuntimeError("compile failed: %s\n%s" % (src, r.stdout.decode(errors="replace")[-6000:]))
    deps = {p: fhash(p) for p in parse_dep(obj + ".d") if tracked(p)}
    with open(stamp, "w") as f:
        json.dump({"cmd": key, "deps": deps}, f)
    return obj, True


LIBDEF = {
    "VirtualRobot": (["-std=c++11", "-DVirtualRobot_EXPORTS"], [], LIBS),
    "Saba": (["-std=c++11", "-DSaba_EXPORTS"], ["VirtualRobot"], LIBS),
    "GraspStudio": (["-DGraspStudio_EXPORTS"], ["VirtualRobot", "Saba"], LIBS),
    "SimDynamics": (["-std=c++11", "-DSimDynamics_EXPORTS"], ["VirtualRobot"], BULLET + LIBS),
}


def pqp_sources():
    d = os.path.join(REPO, "VirtualRobot/CollisionDetection/PQP/PQP++")
    ls = json.load(open(os.path.join(VERIF, "tools", "sources.json")))["pqp"]
    return [s for s in ls if os.path.exists(os.path.join(REPO, s))]


def link(out, cmd, inputs):
    sig = hashlib.sha1((" ".join(cmd) + "".join(fhash(i) for i in inputs)).encode()).hexdigest()
    st = out + ".sig"
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == sig:
        return False
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise RuntimeError("link failed: %s\n%s" % (out, r.stdout.decode(errors="replace")[-6000:]))
    _hash.pop(out, None)
    open(st, "w").write(sig)
    return True


def build(libs, checks, quiet=True):
    os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    need = []
    for l in libs:
        for x in LIBDEF[l][1] + [l]:
            if x not in need:
                need.append(x)
    for p in ("lib", "bin"):
        os.makedirs(os.path.join(B, p), exist_ok=True)
    jobs = []  # (group, src, extra, objname)
    for l in need:
        srcs = sources(l)
        for s in srcs:
            ex = LIBDEF[l][0] if not s.endswith(".c") else [x for x in LIBDEF[l][0] if not x.startswith("-std")]
            if l == "GraspStudio" and not s.endswith(".c"):
                ex = ex + ["-std=c++11"]
            jobs.append((l, s, ex, s))
        if l == "VirtualRobot":
            for s in pqp_sources():
                jobs.append((l, s, ["-std=c++11"], s))
    for f in sorted(os.listdir(os.path.join(VERIF, "harness", "engine"))):
        if f.endswith(".cpp"):
            jobs.append(("engine", os.path.join(VERIF, "harness", "engine", f), ["-std=c++14", "-I" + VERIF + "/harness"], "harness/" + f))
    for c in checks:
        jobs.append(("check:" + c, os.path.join(VERIF, "harness", "checks", c + ".cpp"), ["-std=c++14", "-I" + VERIF + "/harness"], "harness/" + c))
    res = {}
    n = 0
    # big units first
    with ThreadPoolExecutor(JOBS) as ex:
        order = sorted(jobs, key=lambda j: (0 if j[0].startswith("check") else 1, -os.path.getsize(j[1] if j[1].startswith("/") else os.path.join(REPO, j[1]))))
        futs = [(j, ex.submit(compile_one, j[1], j[2], j[3])) for j in order]
        err = None
        for j, f in futs:
            try:
                o, ch = f.result()
                n += ch
                res.setdefault(j[0], []).append(o)
            except Exception as e:
                err = err or e
        if err:
            raise err
    cov = ["--coverage"] if COV else []
    for l in need:
        out = os.path.join(B, "lib", "lib%s.so" % l)
        ob = sorted(res[l])
        dl = [os.path.join(B, "lib", "lib%s.so" % d) for d in LIBDEF[l][1]]
        link(out, ["g++", "-shared", "-o", out] + cov + ob + dl + LIBDEF[l][2], ob + dl)

    def mk(c):
        out = os.path.join(B, "bin", c)
        ob = sorted(res["engine"] + res["check:" + c])
        ls = deps_of(c)
        use = []
        for l in ls:
            for x in [l] + LIBDEF[l][1]:
                if x not in use:
                    use.append(x)
        dl = [os.path.join(B, "lib", "lib%s.so" % d) for d in use]
        ext = BULLET if "SimDynamics" in use else []
        link(out, ["g++", "-o", out] + cov + ob + ["-Wl,-rpath," + os.path.join(B, "lib")] + dl + ext + LIBS, ob + dl)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(mk, checks))
    if not quiet or n:
        print("[build] %d units compiled, %.1f s" % (n, time.time() - t0), flush=True)


def deps_of(check):
    """libraries a check uses: first line '// libs: VirtualRobot Saba'"""
    with open(os.path.join(VERIF, "harness", "checks", check + ".cpp")) as f:
        m = re.match(r'//\s*libs:\s*(.*)', f.readline())
    return m.group(1).split() if m else ["VirtualRobot"]


def all_checks():
    return sorted(f[:-4] for f in os.listdir(os.path.join(VERIF, "harness", "checks")) if f.endswith(".cpp"))


if __name__ == "__main__":
    cs = [a for a in sys.argv[1:] if not a.startswith("-")] or all_checks()
    libs = []
    for c in cs:
        for l in deps_of(c):
            if l not in libs:
                libs.append(l)
    build(libs, cs, quiet=False)
