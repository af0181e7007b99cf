#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, observe=observe))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        anchors["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")

manifest = {"version": 1,
    "setup_cmd": "./run.sh setup",
    "checks": [{"property": p["id"], "quick_cmd": "./run.sh " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
               for p in sorted(P, key=lambda p: p["id"])],
    "not_applicable": NA,
    "notes": "One harness (harness/, Go, pgregory.net/rapid from the module cache) holds every check; run.sh builds it against /repo's working tree and runs one property. './run.sh replay FILE' re-runs a saved case. No hooks in /repo: everything is observed through exported API."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False); f.write("\n")

# known findings: those we list by hand, and the repaired ones with their commits
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout
if log:
    commits = [l.split("\t", 1) for l in log.splitlines()]
    fixes = {h: s for h, s in commits if s.startswith("fix:")}
    known = json.load(open(os.path.join(HERE, "meta", "known.json")))
    fixed, used = [], set()
    for line in open(os.path.join(HERE, "meta", "fixed.tsv")):
        if not line.strip(): continue
        pid, subj, what = line.rstrip("\n").split("\t")
        hs = [h for h, s in fixes.items() if s.startswith(subj)]
        assert len(hs) == 1, (subj, hs)
        used.add(hs[0])
        fixed.append("fixed: property=%s %s %s" % (pid, hs[0], what))
    for h in fixes:
        if h not in used: print("fix without entry:", h, fixes[h])
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"known": known, "fixed": fixed}, f, indent=1, ensure_ascii=False); f.write("\n")
