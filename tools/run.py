#!/usr/bin/env python3
"""run.py P01 [quick|thorough]   build from /repo's working tree, search, write evidence/P01.json
   run.py P01 --replay FILE      run one recorded case
"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

V = build.VERIF


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = "quick"
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    check = [c for c in build.all_checks() if c.split("_")[0] == prop]
    if len(check) != 1:
        print("no check for", prop)
        return 2
    check = check[0]
    try:
        build.build(build.deps_of(check), [check])
    except RuntimeError as e:
        print(e)
        return 3
    out = os.path.join(build.B, "out-%s.json" % prop)
    rdir = os.path.join(build.B, "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        os.unlink(out)
    except OSError:
        pass
    env = dict(os.environ, QT_QPA_PLATFORM="offscreen", HOME=os.environ.get("HOME", "/root"), LC_ALL="C", VERIF_SEED=str(seed),
               SIMOX_REPO=build.REPO, SIMOX_DATA_PATH=os.path.join(build.REPO, "VirtualRobot", "data"))
    env.pop("DISPLAY", None)
    t1 = time.time()
    if "--replay" in args:
        i = args.index("--replay") + 1
        args[i] = os.path.abspath(args[i])
    p = subprocess.run([os.path.join(build.B, "bin", check), "--tier", tier, "--seed", str(seed), "--out", out, "--replay-dir", rdir] + args,
                       env=env, cwd=build.B, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    txt = p.stdout.decode(errors="replace")
    sys.stdout.write(txt)
    if "--replay" in args:
        return p.returncode
    try:
        d = json.load(open(out))
    except (OSError, ValueError):
        print("no result file from", check, "exit", p.returncode)
        return 4
    kf = known_findings(prop)
    rc = p.returncode
    for k, n in d["known"].items():
        if k not in kf:
            print("known finding %s is not listed" % k)
            return 5
    for k, text in kf.items():
        if d["known"].get(k, 0):
            print("KNOWN-FINDING: property=%s %s: %s (seen in %d cases)" % (prop, k, text, d["known"][k]))
        else:
            print("KNOWN-FINDING: property=%s %s: %s (not reached in this run)" % (prop, k, text))
    samples = []
    for a in d["aspects"]:
        for s in a["samples"][:3]:
            samples.append("%s: %s" % (a["name"], s))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "rule": d["rule"],
                       "samples": samples[:40],
                       "discarded": d["discarded"],
                       "aspects": [{k: a[k] for k in ("name", "planned", "evaluated", "discarded", "nontrivial", "failures")} for a in d["aspects"]],
                       "labels": d["labels"]},
          "wall_s": round(time.time() - t0, 2), "search_s": round(d["search_s"], 2), "build_s": round(t1 - t0, 2),
          "violations": d["violations"], "known_findings": d["known"], "unconfirmed": d["unconfirmed"]}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return rc


def known_findings(prop):
    """lines 'known: property=P01 id=KF01 <text>' of known-findings.txt"""
    res = {}
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r'known: property=(\S+) id=(\S+)\s+(.*)', l)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return res


if __name__ == "__main__":
    sys.exit(main())
