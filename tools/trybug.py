#!/usr/bin/python3
"""
tools/trybug.py [--no-tests] [--tier quick] ID...   confirm planted bugs: patch applies, builds,
stable tests pass, demo 0/nonzero, and whether the property's check catches it.
Works on copies of /repo and /verif mounted over the real ones in a private
mount namespace, so that the real trees are never touched.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
HERE = "/verif"


def sh(script, repo, verif, timeout=1500):
    cmd = ["unshare", "-Urm", "bash", "-c",
           "mount --bind %s /repo && mount --bind %s /verif && mkdir -p %s/jyb && mount --bind %s/jyb /opt/jy/build && cd /verif && %s" % (
               repo, verif, os.path.dirname(repo), os.path.dirname(repo), script)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--prop")
    a = ap.parse_args()
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for id in a.ids:
        meta = json.load(open("%s/seeded/%s/meta.json" % (HERE, id)))
        prop = a.prop or meta["property"]
        t = tempfile.mkdtemp(prefix="try-")
        repo, verif, demo = t + "/repo", t + "/verif", t + "/demo"
        res = {}
        try:
            subprocess.check_call(["cp", "-a", "/repo", repo])
            shutil.copytree("/verif", verif, ignore=shutil.ignore_patterns("seeded", ".git"))
            subprocess.check_call(["cp", "-a", "%s/seeded/%s" % (HERE, id), demo])
            for f in ("patch.diff", "meta.json"):
                os.unlink(demo + "/" + f)
            rc, out = sh("cd /repo && bash %s/demo.sh" % demo, repo, verif)
            res["demo clean"] = rc
            if rc:
                print(out[-1500:])
            subprocess.check_call(["git", "-C", repo, "apply", "%s/seeded/%s/patch.diff" % (HERE, id)])
            rc, out = sh("bash /opt/vp/build.sh", repo, verif)
            res["build"] = rc
            rc, out = sh("cd /repo && bash %s/demo.sh" % demo, repo, verif)
            res["demo bug"] = rc
            if rc == 0:
                print(out[-800:])
            if not a.no_tests:
                rc, out = sh("bash /opt/vp/test.sh %s/t.json" % t, repo, verif)
                passed = set(json.load(open(t + "/t.json"))["passed"])
                bad = [x for x in stable if x not in passed]
                res["tests"] = "ok" if not bad else bad[:3]
            if not a.no_check:
                rc, out = sh("./check.py %s --tier quick" % prop, repo, verif)
                hit = "VIOLATION property=%s " % prop in out
                res["caught"] = bool(rc == 1 and hit)
                lines = [l for l in out.splitlines() if l.startswith("  ") or prop + " quick" in l]
                print("   ", "\n    ".join(x[:160] for x in lines[:2] + lines[-1:]))
                if rc not in (0, 1):
                    print(out[-2000:])
        finally:
            shutil.rmtree(t, ignore_errors=True)
        good = (res["demo clean"] == 0 and res["build"] == 0 and res["demo bug"] != 0
                and res.get("tests", "ok") == "ok")
        print(id, prop, "COUNTS" if good else "DOES-NOT-COUNT", "CAUGHT" if res.get("caught") else "MISSED", res, flush=True)


if __name__ == "__main__":
    main()
