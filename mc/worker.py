# -*- coding: utf-8 -*-
"""One worker JVM: runs the shard of one property's exploration."""
import sys, os, time, threading, traceback, json

def main(argv):
    cfg = json.load(open(argv[1]))
    here = os.path.dirname(os.path.abspath(argv[0]))
    sys.path.insert(0, os.path.dirname(here))
    sys.path.append(os.path.join(os.path.dirname(here), "stubs"))
    from mc import core
    out_path = cfg["out"]
    os.chdir(cfg["scratch"])
    ck = core.Checker(cfg["prop"], cfg["tier"], cfg["seed"], cfg["shard"],
                      cfg["nshards"], cfg["scratch"], cfg.get("replay_key"),
                      cfg.get("known", ()), cfg["t0"] + cfg["limit"])
    beat_path = cfg["beat"]

    def beat():
        while not ck.done:
            tmp = beat_path + ".tmp"
            f = open(tmp, "wb")
            f.write(json.dumps([ck.serial, repr(ck.current)]))
            f.close()
            os.rename(tmp, beat_path)
            time.sleep(1.0)

    t = threading.Thread(target=beat)
    t.setDaemon(True)
    t.start()

    error = None
    real_out, real_err = sys.stdout, sys.stderr
    # modules may bind these when they are imported
    from mc import script
    sys.stdout, sys.stderr = script.stdout, script.stderr
    try:
        mod = __import__("mc.props." + cfg["module"], fromlist=["run"])
        mod.run(ck)
    except:
        error = traceback.format_exc()
        # an error which comes out of the code under test while a case is
        # being prepared is a finding as well
        if 'File "/repo/' in error:
            ck.violate(("preparation",), "unexpected error while cases were prepared", error)
    sys.stdout, sys.stderr = real_out, real_err
    ck.done = True
    res = dict(traces=ck.traces, transitions=ck.transitions,
               states=sorted(ck.state_set), outcomes=sorted(ck.outcome_set),
               enumerated=ck.n_enumerated, groups=ck.groups,
               samples=ck.samples, violations=ck.violations,
               capped=ck.capped, notes=ck.notes, bounds=ck.bounds, error=error)
    tmp = out_path + ".tmp"
    f = open(tmp, "wb")
    f.write(json.dumps(res))
    f.close()
    os.rename(tmp, out_path)
    sys.stdout.flush()
    from java.lang import System
    System.exit(0)

main(sys.argv)
