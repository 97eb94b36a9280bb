#!/usr/bin/python3
"""Write properties.jsonl and MANIFEST.json from registry.py (and validate)."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import registry

TECH = "explicit-state / exhaustive bounded exploration of the real code against a reference model"

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in registry.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        files = [x for x in p["files"]]
        for x in files:
            assert os.path.exists(os.path.join("/repo", x)) or os.path.exists(os.path.join("/repo", x + ".py")), x
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["tests"],
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

checks, na = [], []
for p in registry.PROPS:
    if p["module"]:
        checks.append(dict(
            property=p["id"], quick_cmd="./check.py %s --tier quick" % p["id"],
            thorough_cmd="./check.py %s --tier thorough" % p["id"],
            technique=p.get("tech") or TECH, level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(dict(version=1, setup_cmd="/usr/bin/python3 tools/setup.py", checks=checks,
                   not_applicable=na), f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
