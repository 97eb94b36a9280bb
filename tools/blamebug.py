#!/usr/bin/python3
"""Are the lines that a planted bug removes lines of the original repository?"""
import re, subprocess, sys
BASE = "48dd822"
for id in sys.argv[1:]:
    path = None
    bad = []
    for l in open("/verif/seeded/%s/patch.diff" % id, encoding="latin-1"):
        if l.startswith("--- a/"):
            path = l[6:].strip()
            blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", path]).decode("utf-8", "replace").splitlines()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = blame[n - 1]
            if not b.lstrip("^").startswith(BASE) and l[1:].strip():
                bad.append(l.rstrip())
            n += 1
        elif l.startswith(" "):
            n += 1
    print(id, "ok" if not bad else bad)
