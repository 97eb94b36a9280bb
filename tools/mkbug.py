#!/usr/bin/python3
"""
Helper for planting bugs:  mk(id, property, [(file, old, new)], needs, breaks, demo)
writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}; nothing in /repo is touched.
"""
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_SH = """#!/bin/bash
# exit 0: the property holds for this demonstration; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/jy/env.sh
work=$(mktemp -d)
cp "$here/demo.py" "$work/demo.py"
cd "$work" || exit 3
TMPDIR=$work timeout -k 5 200 jython2 "$work/demo.py"
rc=$?
cd /
rm -rf "$work"
exit $rc
"""


def mk(id, prop, edits, needs, breaks, demo):
    d = os.path.join(HERE, "seeded", id)
    tmp = tempfile.mkdtemp(prefix="mkbug-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for path, old, new in edits:
            full = os.path.join(tmp, "r", path)
            s = open(full, "rb").read()
            old, new = old.encode("utf-8"), new.encode("utf-8")
            assert s.count(old) == 1, (id, path, s.count(old), old)
            open(full, "wb").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"])
    finally:
        shutil.rmtree(tmp)
    assert diff.strip()
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(
        "# -*- coding: utf-8 -*-\n" + demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", id)
