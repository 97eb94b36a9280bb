"""
What a command line means to a parser, for one argparse module.  Runs under
Jython with the parser of the repository and under Python 3 with that of the
standard library (python3 argspec.py: a server, one JSON request per line).
"""
import json
import sys


class Refused(Exception):
    pass


def build(argparse, spec, prog="prog"):
    class Parser(argparse.ArgumentParser):
        def error(self, message):
            raise Refused()

        def exit(self, *args, **kw):
            raise Refused()

        def print_help(self, *args):
            raise Refused()

        print_usage = print_help

    opts = dict((str(k), v) for k, v in spec.get("parser", {}).items())
    if "parents" in spec:
        opts["parents"] = [build(argparse, dict(args=args, parser=dict(add_help=False)), prog) for args in spec["parents"]]
    if opts.pop("suppress", None):
        opts["argument_default"] = argparse.SUPPRESS
    parser = Parser(prog=prog, **opts)
    groups = {}

    def group(name):
        """the parser, a titled group ("g"), an exclusive one ("x", "x!" if required), or one in another ("g/x")"""
        if not name:
            return parser
        if name not in groups:
            outer, _, last = name.rpartition("/")
            if last[0] == "x":
                groups[name] = group(outer).add_mutually_exclusive_group(required=last.endswith("!"))
            else:
                groups[name] = group(outer).add_argument_group(last)
        return groups[name]

    if spec.get("before"):
        parser.set_defaults(**dict((str(k), v) for k, v in spec["before"].items()))
    for arg in spec["args"]:
        kw = dict((str(k), v) for k, v in arg.items() if k not in ("names", "group", "subs"))
        if "type" in kw:
            kw["type"] = {"int": int, "float": float, "upper": upper}[kw["type"]]
        for k in ("nargs", "default"):
            if kw.get(k) == "SUPPRESS":
                kw[k] = argparse.SUPPRESS
            if kw.get(k) == "REMAINDER":
                kw[k] = "..."
        target = group(arg.get("group", ""))
        if "subs" in arg:
            sub = parser.add_subparsers(dest=kw.get("dest"), parser_class=Parser)
            if hasattr(sub, "required"):
                sub.required = True
            for item in arg["subs"]:
                p = sub.add_parser(item[0])
                for a in item[1]:
                    k2 = dict((str(k), v) for k, v in a.items() if k != "names")
                    if "type" in k2:
                        k2["type"] = int
                    p.add_argument(*[str(n) for n in a["names"]], **k2)
                if item[2:]:
                    p.set_defaults(**dict((str(k), v) for k, v in item[2].items()))
            continue
        target.add_argument(*[str(n) for n in arg["names"]], **kw)
    if spec.get("defaults"):
        parser.set_defaults(**dict((str(k), v) for k, v in spec["defaults"].items()))
    return parser


def upper(s):
    if s == "bad":
        raise ValueError(s)
    return s.upper()


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


class Given(object):
    def __init__(self, values):
        for k, v in values.items():
            setattr(self, k, v)


def meaning(parser, argv, known, given=None):
    """what the parser makes of a command line: values, or None if it is refused"""
    args = [list(argv)]
    if given is not None:
        args.append(Given(given))
    try:
        if known:
            ns, rest = parser.parse_known_args(*args)
        else:
            ns, rest = parser.parse_args(*args), []
        if given is not None and ns is not args[1]:
            return "another object"
    except Refused:
        return None
    return [sorted((k, plain(v)) for k, v in vars(ns).items()), list(rest)]


def serve():
    import argparse
    for line in sys.stdin:
        req = json.loads(line)
        out = []
        try:
            parser = build(argparse, req["spec"])
        except (ValueError, TypeError, argparse.ArgumentError) as e:
            out = "invalid"
        else:
            for argv in req["lines"]:
                try:
                    out.append(meaning(parser, argv, req["known"], req["spec"].get("given")))
                except Exception:
                    # the parser is not made for this
                    out.append("error")
        sys.stdout.write(json.dumps(out) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    serve()
