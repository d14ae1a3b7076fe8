"""Maintainer's helper: lists /repo's fix: commits in known_findings.jsonl (status fixed); never run by a check.
Usage: mkfixed.py PROPERTY COMMIT..."""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
have = open(p).read() if os.path.exists(p) else ""
with open(p, "a") as f:
    for c in sys.argv[2:]:
        s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], capture_output=True, text=True, check=True).stdout.strip()
        h, what = s.split(" ", 1)
        what = what[5:]
        if h not in have:
            f.write(json.dumps({"property": sys.argv[1], "status": "fixed", "commit": h, "what": what,
                                "text": "fixed: property=%s %s %s" % (sys.argv[1], h, what)}) + "\n")
