#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  regenerates both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, technique="property-based testing: generated inputs against an independent oracle, shrinking to a replay file"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])


def main():
    have = {f.split("_")[0] for f in os.listdir(os.path.join(V, "harness", "checks")) if f.endswith(".cpp")}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["id"]
            assert p["id"] in have, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/build.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3 tools/run.py %s quick" % p["id"], "thorough_cmd": "python3 tools/run.py %s thorough" % p["id"],
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in sorted(PROPS, key=lambda p: p["id"])],
         "not_applicable": NOT_APPLICABLE}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for x in sorted(have - {p["id"] for p in PROPS}):
        print("check without property:", x)


main()
