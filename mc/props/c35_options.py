# -*- coding: utf-8 -*-
"""
C35: all small parsers x all short command lines, next to a later release of
the same parser (that of Python 3) as the reference
"""

import itertools
import json
import os
import subprocess

from daeso.thirdparty import argparse

from mc import argspec
from mc.core import eq, ok, Mismatch

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Reference(object):

    def __init__(self, cwd):
        self.p = subprocess.Popen(["/usr/bin/python3", "-S", "-B", os.path.join(HERE, "argspec.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=cwd)

    def __call__(self, spec, lines, known=False):
        self.p.stdin.write(json.dumps(dict(spec=spec, lines=lines, known=known)) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())


def arg(*names, **kw):
    return dict(kw, names=names)


OPTS = [arg("-a"), arg("-a", "--all", action="store_true"), arg("--ab"), arg("--abc", action="store_true"),
        arg("-b", nargs="?", const="c"), arg("-b", nargs="*"), arg("-b", nargs="+"), arg("-b", nargs=2),
        arg("-c", action="append"), arg("-c", "--count", action="count"), arg("-c", action="store_const", const=5),
        arg("-c", action="append_const", const=5, dest="k"), arg("-a", action="store_false", dest="not_a"),
        arg("-1", action="store_true"), arg("-i", type="int", default=3), arg("-i", required=True),
        arg("-i", choices=["x", "y"]), arg("-i", "--ab-c", type="upper", default="low"), arg("-b", nargs="*", default=["q"]),
        arg("-c", action="append", nargs=2), arg("-i", type="int", choices=[1, 2], default="2"), arg("-i", default="SUPPRESS")]
POS = [None, arg("p"), arg("p", nargs="?"), arg("p", nargs="*"), arg("p", nargs="+"), arg("p", nargs=2),
       arg("p", type="int"), arg("p", choices=["x", "1"]), arg("p", nargs="*", default=["d"]),
       arg("p", nargs="?", default="7", type="int"), arg("p", nargs=1), arg("p", nargs="?", choices=["x", "y"], default="y")]
POS2 = [arg("q"), arg("q", nargs="?"), arg("q", nargs="*"), arg("q", nargs="+"), arg("q", nargs=2)]
TOKENS = ["-a", "--a", "--ab=x", "-ax", "-b", "-bx", "-cc", "x", "1", "-1", "--", "-i", "--abc"]
MORE = ["--all=", "--ab", "-ac", "-i1", "-", "", "a b", "--nope", "-x", "--ab-c=y=z", "-1.5", "bad"]


def lines(tokens, n):
    return [l for k in range(n + 1) for l in itertools.product(tokens, repeat=k)]


def specs(quick):
    """(group, spec, tokens, length of the command lines)"""
    n = 3 if quick else 4
    for o in OPTS:
        for p in POS:
            yield "one option", dict(args=[o] + ([p] if p else [])), TOKENS + MORE, n - 1
            yield "one option", dict(args=([p] if p else []) + [o]), TOKENS, n
    pos = POS[:6] if quick else POS
    for o1, o2 in itertools.combinations(OPTS, 2):
        for p in pos[:3] if quick else pos:
            yield "two options", dict(args=[o1, o2] + ([p] if p else [])), TOKENS, n if not quick else 2
    for p, q in itertools.product(POS[1:], POS2):
        yield "two positional arguments", dict(args=[p, q]), ["x", "1", "-1", "--", "y", "-z"], n + 2
        for o in OPTS[1:2] + OPTS[4:8] + OPTS[14:15]:
            yield "two positional arguments", dict(args=[p, o, q]), [o["names"][0], "x", "1", "--", "-1"], n + 1
    # exclusive groups
    for o1, o2 in itertools.combinations([OPTS[i] for i in (0, 2, 3, 4, 8, 9, 14)], 2):
        for mark in ("x", "x!"):
            for p in POS[:4]:
                g = [dict(o, group=mark) for o in (o1, o2)]
                yield "exclusive options", dict(args=g + ([p] if p else [])), TOKENS[:8] + TOKENS[11:], n
            yield "exclusive options", dict(args=[dict(o1, group=mark), dict(POS[2], group=mark), o2]), TOKENS[:10], n
            yield "exclusive options", dict(args=[dict(o1, group="g"), dict(o2, group="g")]), TOKENS, 2
    # groups in groups; values which equal a default; options like numbers
    same = [arg("-i", default="xy"), arg("-b", nargs="*", default=["1"]), arg("-c", action="append", default=["x"]),
            arg("-1", action="store_true"), arg("-a", action="store_true"), arg("-n", type="int", default=10)]
    for o1, o2 in itertools.permutations(same, 2):
        for mark in ("g", "g/x", "g/x!", "x"):
            g = [dict(o, group=mark) for o in (o1, o2)]
            yield "groups", dict(args=g + [POS[2]]), ["-i", "xy", "-b", "1", "-c", "x", "-1", "-2", "-a", "-n10"], n - 1
            yield "groups", dict(args=[dict(o1, group="g/x"), arg("-m"), dict(o2, group="g/x"), dict(POS[2], group="h")]), \
                [o["names"][0] for o in (o1, o2)] + ["-m", "xy", "1"], n
    # defaults set before and after, parts of other parsers, results put into an object
    for o in OPTS[:12] + same[1:3]:
        for p in POS[:5]:
            args = [o] + ([p] if p else [])
            yield "sources", dict(args=args, before=dict(a="one", b=["two"], c=["three"], i="4", p="five", k=[6])), TOKENS, n - 1
            yield "sources", dict(args=args, given=dict(a="one", b=["two"], i="4", p="five", k=[6], u=7)), TOKENS, n - 1
            yield "sources", dict(args=[dict(o, group="g")], parents=[[p] if p else [], [dict(arg("-m"), group="g"),
                                  dict(arg("-o", nargs="?"), group="x"), dict(arg("-p", action="count"), group="x")]]), \
                TOKENS[4:9] + ["-a", "-mx", "-o", "-pp"], n - 1
    # settings of the parser
    for o in OPTS[:10]:
        for p in POS[:5]:
            args = [o] + ([p] if p else [])
            yield "settings", dict(args=args, parser=dict(suppress=True)), TOKENS, n - 1
            yield "settings", dict(args=args, parser=dict(argument_default="z")), TOKENS, n - 1
            yield "settings", dict(args=args, defaults=dict(a="set", p="set", other=1)), TOKENS, n - 1
            plus = [dict(x, names=[y.replace("-", "+") for y in x["names"]], dest=x.get("dest", "o")) if x is o else x
                    for x in args]
            yield "settings", dict(args=plus, parser=dict(prefix_chars="+", add_help=False)), \
                [t.replace("-", "+") for t in TOKENS] + ["-a"], n - 1
            yield "settings", dict(args=plus + [arg("-m", "--main")], parser=dict(prefix_chars="+-")), \
                ["+a", "++a", "-m", "--m=1", "+b", "x", "--", "-1", "+1", "++ab=x"], n
            yield "settings", dict(args=plus + [arg("-m"), arg("-n", action="count"), arg("+n", action="store_false", dest="f")],
                                   parser=dict(prefix_chars="+-")), \
                ["+an", "-nn", "-nnm", "-nmx", "+na", "+n", "x", "-n+n", "+nbx"], n - 1
            yield "settings", dict(args=args, parser=dict(fromfile_prefix_chars="@")), \
                ["-a", "x", "@one", "@two", "@none", "--", "@"], n
            yield "settings", dict(args=args + [arg("-a", "--again")], parser=dict(conflict_handler="resolve")), \
                TOKENS + ["--again=1", "--all"], 2
    # parts of a command line which are not known
    for o in OPTS[:12]:
        for p in POS[:6]:
            yield "unknown arguments", dict(args=[o] + ([p] if p else []), known=True), \
                [t for t in TOKENS if t != "-ax"] + ["--un=1", "-u"], n - 1
    # commands
    subs = [["go", [arg("-g", action="store_true"), arg("where", nargs="?")]], ["stay", [arg("--time", type="int")]]]
    for o in OPTS[:10]:
        for p in (None, arg("p"), arg("p", nargs="?")):
            args = [o] + ([p] if p else [])
            yield "commands", dict(args=args + [dict(subs=[["go", [arg("-g", default="own")], dict(y="go", z=1)],
                                                           ["stay", [], dict(z=2, v="stay")]], dest="command")],
                                   defaults=dict(u=0, w="main")), ["go", "stay", "-g", "x", o["names"][0]], n
            args = args + [dict(subs=subs, dest="command")]
            yield "commands", dict(args=args), ["go", "stay", "-g", "x", o["names"][0], "--time=3", "--t", "3"], n


def run(ck):
    d = ck.tmpdir()
    os.chdir(d)
    for name, text in (("one", "-a\nx\n"), ("two", "1\n@one\n\n--ab=2\n")):
        f = open(os.path.join(d, name), "w")
        f.write(text)
        f.close()
    reference = Reference(d)
    ck.bounds["parsers"] = "%d kinds of options, %d of positional arguments, alone, in pairs, in exclusive " \
                           "groups, with settings of the parser and with commands" % (len(OPTS), len(POS))
    ck.bounds["command lines"] = "all up to length %s over 6 to %d words" % (
        "2 to 5" if ck.quick else "2 to 6", len(TOKENS + MORE))
    for i, (group, spec, tokens, n) in enumerate(specs(ck.quick)):
        key = (group, json.dumps(spec, sort_keys=True), n)
        if not ck.want(key):
            continue
        with ck.case(key, group):
            known = spec.get("known", False)
            ls = lines(tokens, n)
            want = reference(spec, ls, known)
            try:
                parser = argspec.build(argparse, spec)
            except (ValueError, TypeError, argparse.ArgumentError) as e:
                eq("invalid", want, "a parser which cannot be made", e)
                continue
            ok(want != "invalid", "a parser which cannot be made", key)
            for l, w in zip(ls, want):
                if w == "error":
                    continue
                try:
                    got = argspec.meaning(parser, l, known, spec.get("given"))
                except Exception as e:
                    raise Mismatch("a command line is read or refused", "%r\n%r" % (l, e))
                got = json.loads(json.dumps(got))
                if got != w:
                    raise Mismatch("meaning of a command line", "%r\nobserved: %r\nrequired: %r" % (l, got, w))
                ck.outcome(got)
            ck.step(len(ls))
            ck.state(key)
