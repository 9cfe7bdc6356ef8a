#!/usr/bin/env python3
"""mutate.py OUT N SEED PROP...   (development aid, not part of any check)
   Mutation testing: apply random small changes to the files a property is anchored at, in working copies, and list
   those the property's quick check does not notice. Runs K workers (env K, default 3) in copies under /tmp/mut."""
import json, os, random, re, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, N, seed, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
SRC = os.environ.get("MUT_SRC", "/tmp/w")
K = int(os.environ.get("K", "3"))
P = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    P[p["id"]] = p
SKIPLINE = re.compile(r'^\s*(//|/\*|\*|#|case\b|default:|namespace|using|class|struct|template|typedef|public|protected|private)|VR_INFO|VR_ERROR|VR_WARNING|cout|cerr|SABA_|GRASPSTUDIO_(INFO|ERR)|THROW_VR|VR_ASSERT|BOOST_|std::endl|<< *endl|assert\(|\bthrow\b|verbose|MUTEX|Mutex|lock' + ('' if os.environ.get('MUT_ALL') else '|isualization') + '(?!)|#include')
SUBS = [(r'(?<![<>=!+\-*/])<(?![<=])(?=\s)', '<='), (r'<=', '<'), (r'(?<![->=])>(?![>=])(?=\s)', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
        (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=[\w\)\]]) \+ (?=[\w\(])', ' - '), (r'(?<=[\w\)\]]) - (?=[\w\(])', ' + '), (r'(?<=[\w\)\]]) \* (?=[\w\(])', ' / '), (r'(?<=[\w\)\]]) / (?=[\w\(])', ' * '),
        (r'\+=', '-='), (r'-=', '+='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bstd::max\b', 'std::min'), (r'\bstd::min\b', 'std::max'), (r'\bfmax\b', 'fmin'),
        (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '3'), (r'(?<![\w.])3(?![\w.])', '2'), (r'\b0\.5f?\b', '0.6f'), (r'\b1\.0f?\b', '1.1f'), (r'\b0\.0f\b', '0.1f'),
        (r'\bsin\(', 'cos('), (r'\bcos\(', 'sin('), (r'\.inverse\(\)', ''), (r'\.transpose\(\)', ''), (r'\bfabs\(', '('), (r'\bi\b(?=\])', 'i?i-1:0'), (r'\bcontinue;', ';'), (r'\bbreak;', ';'),
        (r'\bif \((.*)\)\s*$', r'if (!(\1))'), (r'\bbegin\(\)', 'end()-1'), (r'\bLo\b|Lo\(', 'Hi('), (r'\bfirst\b', 'second')]


def mutants(f, rng, n):
    path = SRC + "/repo/" + f
    b = open(path, 'rb').read().decode('latin1')
    L = b.split('\n')
    cand = []
    depth_comment = False
    for i, l in enumerate(L):
        if '/*' in l: depth_comment = True
        if depth_comment:
            if '*/' in l: depth_comment = False
            continue
        if SKIPLINE.search(l) or not l.startswith('    ') and not l.startswith('\t'): continue
        code = l.split('//')[0]
        if '"' in code: continue
        for pat, rep in SUBS:
            for m in re.finditer(pat, code):
                if pat.startswith(r'(?<![\w.])') and 'for' in code and m.start() < code.find(';') and '= 0' not in code: pass
                cand.append((i, m.start(), m.end(), m.expand(rep)))
        s = code.strip()
        if s.endswith(';') and re.match(r'^[\w:.\->\[\]\(\)]+(\s*[-+*/]?=|\(|->|\.)', s) and not re.match(r'^(return|[\w:<>]+ [\w]+ =|[\w:<>]+ [\w]+;|else|delete)', s):
            cand.append((i, len(code) - len(code.lstrip()), len(code.rstrip('\r')), ';'))
    rng.shuffle(cand)
    res, lines = [], {}
    for i, a, e, r in cand:
        if lines.get(i, 0) >= 2: continue
        lines[i] = lines.get(i, 0) + 1
        new = L[i][:a] + r + L[i][e:]
        res.append((f, i, L[i], new, '\n'.join(L[:i] + [new] + L[i + 1:])))
        if len(res) >= n: break
    return res


q = queue.Queue()
for p in props:
    rng = random.Random(seed * 1000 + int(p[1:]))
    files = [f for f in P[p]["anchor"]["files"] if f.endswith('.cpp')] if "anchor" in P[p] else []
    if not files:
        files = sorted(set(re.findall(r'[\w/\-+]+\.cpp', json.dumps(P[p]))))
    per = max(1, N // max(1, len(files)))
    ms = []
    for f in files: ms += mutants(f, rng, per)
    for m in ms: q.put((p, m))
lock = threading.Lock()
log = open(out, 'a')
cnt = {}


def worker(k):
    W = "/tmp/mut/w%d" % (k + int(os.environ.get("K0", "0")))
    if not os.path.isdir(W):
        os.makedirs(W)
        subprocess.check_call(["cp", "-a", SRC + "/repo", W + "/repo"])
        subprocess.check_call(["cp", "-a", SRC + "/verif", W + "/verif"])
    while True:
        try: p, (f, i, old, new, txt) = q.get_nowait()
        except queue.Empty: return
        path = W + "/repo/" + f
        orig = open(path, 'rb').read()
        open(path, 'wb').write(txt.encode('latin1'))
        t = time.time()
        try:
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_JOBS=3 timeout 400 python3 tools/run.py %s quick" % (W, W, p)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors='replace')
            st = "compile" if "compile failed" in o or "link failed" in o else "killed" if r.returncode == 1 and "VIOLATION" in o else "SURVIVED" if r.returncode == 0 else "odd%d" % r.returncode
        finally:
            open(path, 'wb').write(orig)
        with lock:
            cnt.setdefault(p, {}).setdefault(st, 0)
            cnt[p][st] += 1
            log.write("%s %s %s:%d (%.0fs)\n  - %s\n  + %s\n" % (st, p, f, i + 1, time.time() - t, old.strip(), new.strip()))
            log.flush()


T = [threading.Thread(target=worker, args=(k,)) for k in range(K)]
for t in T: t.start()
for t in T: t.join()
log.write("DONE %s\n" % json.dumps(cnt))
log.close()
