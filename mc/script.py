# -*- coding: utf-8 -*-
"""Run a script of /repo/bin inside this interpreter."""
import os
import sys
import cStringIO

BIN = os.environ.get("MC_BIN", "/repo/bin")
_code = {}
# what the streams make of unicode strings ("ascii": a pipe or terminal which knows nothing else)
ENCODING = ["utf-8"]


class Out(object):
    """file-like that accepts bytes and unicode as a terminal would"""
    def __init__(self):
        self.parts = []
        self.encoding = "utf-8"

    def write(self, s):
        if isinstance(s, unicode):
            s = s.encode(ENCODING[0])
        self.parts.append(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        pass

    def isatty(self):
        return False

    def getvalue(self):
        return "".join(self.parts)


class Redirect(object):
    """stands in for sys.stdout or sys.stderr for good, so that modules which
    keep the stream they found when imported can be captured later"""

    def __init__(self):
        self.target = None
        self.encoding = "utf-8"
        self.softspace = 0

    def write(self, s):
        if self.target is not None:
            self.target.write(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        pass

    def isatty(self):
        return False


stdout = Redirect()
stderr = Redirect()


def capture(func, *args, **kwargs):
    """returns (result of func, what it wrote to stdout)"""
    old = stdout.target
    out = stdout.target = Out()
    try:
        res = func(*args, **kwargs)
    finally:
        stdout.target = old
    return res, out.getvalue()


def run(name, args):
    """returns (exit status, stdout, stderr); other exceptions propagate"""
    path = os.path.join(BIN, name)
    code = _code.get(path)
    if code is None:
        f = open(path)
        text = f.read()
        f.close()
        code = _code[path] = compile(text, path, "exec")
    old = sys.argv, stdout.target, stderr.target
    out, err = Out(), Out()
    sys.argv = [path] + list(args)
    stdout.target, stderr.target = out, err
    rc = 0
    try:
        try:
            exec code in {"__name__": "__main__", "__file__": path}
        except SystemExit, inst:
            rc = inst.code
            if rc is None:
                rc = 0
            elif not isinstance(rc, int):
                err.write(str(rc))
                rc = 1
    finally:
        sys.argv, stdout.target, stderr.target = old
    return rc, out.getvalue(), err.getvalue()
