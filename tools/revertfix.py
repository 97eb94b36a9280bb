#!/usr/bin/python3
"""
tools/revertfix.py [PROPERTY...]   strength test: revert each fix listed in
known_findings.txt in a copy of /repo and run the check of its property, which
has to report a violation again.
"""
import re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, "/verif/tools")
from trybug import sh


def main():
    want = sys.argv[1:]
    for line in open("/verif/known_findings.txt"):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
        if not m or want and m.group(1) not in want and m.group(2) not in want:
            continue
        prop, commit, what = m.groups()
        t = tempfile.mkdtemp(prefix="revert-")
        repo, verif = t + "/repo", t + "/verif"
        try:
            subprocess.check_call(["cp", "-a", "/repo", repo])
            shutil.copytree("/verif", verif, ignore=shutil.ignore_patterns("seeded", ".git"))
            p = subprocess.run(["git", "-C", repo, "-c", "user.email=x", "-c", "user.name=x", "revert", "-n", commit],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                res = "CONFLICT"
            else:
                start = time.time()
                rc, out = sh("./check.py %s --tier quick" % prop, repo, verif)
                res = "CAUGHT" if rc == 1 and "VIOLATION property=%s " % prop in out else "MISSED (exit %d)" % rc
                res += " %.0f s" % (time.time() - start)
            print(prop, commit, res, what[:90], flush=True)
        finally:
            shutil.rmtree(t)


if __name__ == "__main__":
    main()
