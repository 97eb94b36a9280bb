#!/usr/bin/python3
"""
Run the check of one property:  ./check.py C03 [--tier quick|thorough]
Replay a recorded violation:     ./check.py --replay replays/C03/xxxx.json

Exit 0: the property held on everything explored (known findings excepted).
Exit 1: a line "VIOLATION property=<id> replay=<path>" per violation.
"""
import argparse, glob, hashlib, importlib.util, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
JARS = "/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar:/usr/share/java/xml-apis.jar"
HANG = 150          # seconds without finishing one (normally sub-second) case


def registry():
    spec = importlib.util.spec_from_file_location("registry", os.path.join(HERE, "registry.py"))
    mod = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    spec.loader.exec_module(mod)
    return mod


def load_known(prop):
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path, encoding="utf-8"):
        line = line.rstrip("\n")
        if line.startswith("known: property=%s " % prop):
            rest = line[len("known: property=%s " % prop):]
            sig, _, what = rest.partition(" ## ")
            known[sig.strip()] = what.strip()
    return known


def env():
    e = {k: v for k, v in os.environ.items()
         if k not in ("PYTHONPATH", "JAVA_TOOL_OPTIONS", "CLASSPATH", "JYTHONPATH")}
    e.update(HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8",
             PATH="/opt/jy/bin:/repo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             JYTHONPATH="/repo/lib:/opt/jy/lib")
    return e


def drop_stale_classes():
    # no class file in /repo may stand in for its source
    for root, dirs, files in os.walk(REPO):
        if ".git" in dirs:
            dirs.remove(".git")
        for f in files:
            if f.endswith("$py.class") or f.endswith(".pyc"):
                try:
                    os.unlink(os.path.join(root, f))
                except OSError:
                    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", choices=("quick", "thorough"))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    args = ap.parse_args()
    t0 = time.time()
    replay_key = None
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if args.replay:
        rep = json.load(open(args.replay))
        args.prop, replay_key, tier = rep["property"], rep["key"], rep["tier"]
    prop = args.prop
    entry = registry().CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    known = load_known(prop)
    workers = args.workers or entry.get("workers", {}).get(tier) or 8
    if replay_key is not None:
        workers = 1
    limit = 780 if tier == "quick" else entry.get("thorough_limit", 6 * 3600)
    drop_stale_classes()
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    procs = []
    try:
        for i in range(workers):
            wd = os.path.join(scratch, "w%d" % i)
            os.mkdir(wd)
            cfg = dict(prop=prop, module=entry["module"], tier=tier, seed=seed, shard=i,
                       nshards=workers, scratch=wd, replay_key=replay_key,
                       known=sorted(known), t0=t0, limit=limit,
                       out=os.path.join(scratch, "out%d.json" % i),
                       beat=os.path.join(scratch, "beat%d.json" % i))
            cpath = os.path.join(scratch, "cfg%d.json" % i)
            with open(cpath, "w") as f:
                json.dump(cfg, f)
            log = open(os.path.join(scratch, "log%d.txt" % i), "wb")
            e = env()
            e["TMPDIR"] = wd
            cmd = ["/usr/bin/java", "-Xss16m", "-Xmx3g", "-XX:+UseSerialGC", "-XX:-UsePerfData",
                   "-XX:CICompilerCount=2",
                   "-cp", JARS, "-Dpython.home=/usr/share/jython",
                   "-Dpython.executable=/opt/jy/bin/python", "-Dpython.cachedir.skip=true",
                   "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + wd,
                   "org.python.util.jython", "-B",
                   os.path.join(HERE, "mc", "worker.py"), cpath]
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                 cwd=wd, env=e, start_new_session=True)
            procs.append(dict(p=p, cfg=cfg, last=None, since=time.time(), hung=None))
        # watch
        while True:
            alive = [x for x in procs if x["p"].poll() is None]
            if not alive:
                break
            for x in alive:
                try:
                    b = json.load(open(x["cfg"]["beat"]))
                except (OSError, ValueError):
                    b = None
                if b != x["last"] or b is None:
                    x["last"] = b
                    x["since"] = time.time()
                elif time.time() - x["since"] > (HANG if b[0] else 3 * HANG):
                    # (before the first case: preparation by the code under test)
                    x["hung"] = b[1]
                    os.killpg(x["p"].pid, signal.SIGKILL)
            time.sleep(0.2)
        # merge
        errors, viols = [], {}
        tot = dict(traces=0, transitions=0)
        states, outcomes, groups, samples, notes, bounds = set(), set(), {}, [], [], {}
        capped = False
        enumerated = None
        for i, x in enumerate(procs):
            if x["hung"] is not None:
                sig = "does not terminate|" + x["hung"]
                viols[sig] = dict(sig=sig, key=x["hung"], label="does not terminate",
                                  detail="case still running after %d s" % HANG)
                continue
            try:
                r = json.load(open(x["cfg"]["out"]))
            except (OSError, ValueError):
                errors.append("worker %d died (rc %s): %s" % (
                    i, x["p"].returncode,
                    open(os.path.join(scratch, "log%d.txt" % i), errors="replace").read()[-3000:]))
                continue
            if r["error"]:
                errors.append(r["error"])
            tot["traces"] += r["traces"]
            tot["transitions"] += r["transitions"]
            states.update(r["states"])
            outcomes.update(r["outcomes"])
            for k, v in r["groups"].items():
                groups[k] = groups.get(k, 0) + v
            samples += r["samples"]
            notes += [n for n in r["notes"] if n not in notes]
            bounds.update(r["bounds"])
            capped = capped or r["capped"]
            enumerated = r["enumerated"]
            for v in r["violations"]:
                viols.setdefault(v["sig"], v)
        code = 0
        new = []
        seen_known = []
        for sig in sorted(viols):
            if sig in known:
                seen_known.append(sig)
            else:
                new.append(viols[sig])
        if replay_key is not None:
            for v in viols.values():
                print("REPLAYED %s\n%s\n" % (v["label"], v["detail"]))
        for sig in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[sig]))
        rdir = os.path.join(HERE, "replays", prop)
        if replay_key is None:
            shutil.rmtree(rdir, ignore_errors=True)
        shown = {}
        # one of each label first
        order, rest = [], []
        for v in new:
            (rest if v["label"] in shown else order).append(v)
            shown[v["label"]] = 1
        for n, v in enumerate((order + rest)[:12]):
            os.makedirs(rdir, exist_ok=True)
            name = hashlib.md5(v["sig"].encode()).hexdigest()[:12] + ".json"
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, key=v["key"], label=v["label"],
                               sig=v["sig"], detail=v["detail"],
                               how="./check.py --replay <this file>"), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (v["label"], v["key"][:300]))
            if n < 4:
                d = v["detail"].strip()
                print("  " + (d if len(d) < 700 else d[:300] + " ... " + d[-400:]).replace("\n", "\n  "))
            code = 1
        if errors and code == 0:
            print("ERROR in the check of %s:\n%s" % (prop, "\n".join(errors)[:6000]))
            code = 2
        if replay_key is None:
            ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                      coverage=dict(
                          states=len(states), transitions=tot["transitions"],
                          traces_validated_against_impl=tot["traces"],
                          distinct_outcomes=len(outcomes), cases_by_group=groups,
                          bounds=bounds, samples=samples[:6] or ["(none)"],
                          exhaustive=not capped and not errors and enumerated is not None,
                          known_findings_seen=len(seen_known), notes=notes),
                      assumptions=entry.get("assumptions", []),
                      wall_s=round(time.time() - t0, 2), violations=len(new))
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1, ensure_ascii=False)
            print("%s %s: states=%d transitions=%d traces=%d outcomes=%d exhaustive=%s violations=%d wall=%.1fs" % (
                prop, tier, len(states), tot["transitions"], tot["traces"], len(outcomes),
                ev["coverage"]["exhaustive"], len(new), time.time() - t0))
        return code
    finally:
        for x in procs:
            if x["p"].poll() is None:
                try:
                    os.killpg(x["p"].pid, signal.SIGKILL)
                except OSError:
                    pass
                x["p"].wait()
        shutil.rmtree(scratch, ignore_errors=True)


sys.exit(main())
