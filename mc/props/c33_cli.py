# -*- coding: utf-8 -*-
"""C33: command lines of the tools

For every tool all subsets of its options up to a size, in all orders, all
spellings of each option, before or after the file names, against the plain
command line with the same options; all faulty command lines of a family.
"""
import itertools
import os
import warnings
import zipfile

from daeso.gb.graphbank import GraphBank
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.graphpair import GraphPair
from daeso.release import version

from mc import fx, script
from mc.core import eq, ok
from mc.props import c15_ptc


class Opt(object):
    """an option: short and long name, an abbreviation, lists of values"""

    def __init__(self, short, long, values=None, abbr=None, many=False, kind=None, bad=(), acts=True, none=False):
        self.short, self.long, self.abbr = short, long, abbr
        self.values = [()] if values is None else [v if isinstance(v, tuple) else (v,) for v in values]
        self.flag = values is None
        self.many = many            # swallows what follows
        self.kind = kind            # "test" or "verbose"
        self.bad = bad              # values that are refused
        self.none = none            # may have no value
        self.acts = acts            # makes a difference with the files used here

    def plain(self, v):
        # a value that looks like an option is joined to its option
        if len(v) == 1 and v[0][:1] == "-":
            return ["%s=%s" % (self.long, v[0])]
        return [self.long or self.short] + list(v)

    def spellings(self, v):
        """all ways to write the option with the value"""
        out = []
        for name in (self.long, self.abbr):
            if name:
                out.append([name] + list(v))
                if len(v) == 1:
                    out.append([name + "=" + v[0]])
        if self.short:
            out.append([self.short] + list(v))
            if len(v) == 1 and v[0]:
                out.append([self.short + v[0]])
        return out


F = Opt
TOOLS = [
    ("pgc_stats.py", ["*.pgc"], 1, [
        F("-a", "--with-all"), F("-e", "--with-empty-nodes", abbr="--with-e", acts=False), F("-f", "--with-failed-parses", acts=False),
        F("-l", "--legenda", abbr="--leg"), F("-p", "--with-punc-nodes", acts=False), F("-r", "--with-unaligned-roots"),
        F("-t", "--token_diff_threshold", values=["0"], abbr="--token", bad=("x", "1.5", ""), acts=False),
        F("-u", "--with_unaligned-graphs", abbr="--with_", acts=False)]),
    ("gb_stats.py", ["s.xml", "-F", "graphml"], 1, [
        F("-a", "--with-all"), F("-e", "--with-empty-nodes", abbr="--with-e", acts=False), F("-f", "--with-failed-parses", acts=False),
        F("-l", "--legenda", abbr="--l"), F("-p", "--with-punc-nodes", acts=False),
        F("-t", "--token_diff_threshold", values=["0"], bad=("x", ""), acts=False)]),
    ("pgc_diff.py", ["a.pgc", "b.pgc"], 2, [
        F("-1", "--first_annotator", values=["Ann", "-", ""], abbr="--first"),
        F("-2", "--second_annotator", values=["Bob B"], abbr="--s"),
        F("-c", "--with_comments", abbr="--with_c"), F("-e", "--evaluate", abbr="--e"),
        F("-i", "--with_ident", abbr="--with_i"),
        F("-r", "--relations", values=["restates", ("specifies", "restates")], many=True, none=True)]),
    ("pgc_agreement.py", ["a.pgc", "b.pgc", "-a", "X", "--annotator=Y"], 1, [
        F("-p", "--pickle", values=["x.pickle"], abbr="--pi"),
        F("-w", "--words-only", abbr="--w")]),
    ("pgc_agreement.py", ["a.pgc", "b.pgc"], 1, [
        F("-p", "--pickle", values=["x.pickle"], abbr="--pi"),
        F("-w", "--words-only", abbr="--w")]),
    ("pgc_chdir.py", ["a.pgc", "o/c.pgc"], 1, [
        F("-p", "--path-prefix-pair", values=[("", "x/"), ("s", "")], abbr="--path"),
        F("-t", "--test", kind="test", abbr="--te", acts=False), F("-V", "--verbose", kind="verbose", abbr="--verb")]),
    ("pgc_cp.py", ["a.pgc", "o"], 2, [F("-o", "--overwrite", abbr="--over", acts=False)]),
    ("pgc_cp.py", ["a.pgc", "b.pgc"], 2, [F("-o", "--overwrite", abbr="--o")]),
    ("pgc_extract_phrases.py", ["a.pgc", "b.pgc"], 1, [
        F("-d", "--delimiter", values=[";", "", "-", "d", "=", "a=b=", "-V"], abbr="--del"),
        F("-V", "--verbose", kind="columns", abbr="--verb")]),
    ("pgc_join.py", ["a.pgc", "b.pgc"], 1, [
        F("-f", "--format", abbr="--for"), F("-V", "--verbose", kind="verbose", abbr="--verb")]),
    ("pgc_split.py", ["a.pgc"], 1, [
        F("-f", "--format", abbr="--fo"), F("-p", "--parts", values=["4", "1"], abbr="--p", bad=("x", "", "1.0")),
        F("-s", "--size", values=["1"], abbr="--s", bad=("y", "")), F("-V", "--verbose", kind="verbose", abbr="--verb")]),
    ("pgc_zip.py", ["z.zip", "a.pgc", "b.pgc"], 2, []),
    ("ptc_chdir.py", ["a.htd", "o/b.htd"], 1, [
        F("-d", "--dir", values=["new", "."], abbr="--di"), F("-t", "--test", kind="test", abbr="--t", acts=False),
        F("-V", "--verbose", kind="verbose", abbr="--verb")]),
    ("ptc_n_to_id.py", ["a.htd", "o/b.htd"], 1, [F("-V", "--verbose", kind="verbose", abbr="--verb")]),
    ("ptc_diff.py", ["a.htd", "o/b.htd"], 2, [
        F("-t", "--tag", values=["p"], abbr="--ta"), F("-e", "--encoding", values=["latin-1"], abbr="--enc", acts=False)]),
    ("ptc_eval.py", [], 0, [
        F("-t", "--true_corpora", values=[("a.htd", "a.htd")], many=True, abbr="--tr"),
        F("-p", "--pred_corpora", values=[("a.htd", "o/b.htd")], many=True, abbr="--p"),
        F(None, "--tag", values=["p", "s"], abbr="--ta", acts=False)]),
]
NEEDED = {"ptc_eval.py": (0, 1)}       # options which have to be there


def files(d):
    """the files a tool finds"""
    os.mkdir(d + "/o")
    for n, prefix in (("s.xml", "g"), ("t.xml", "h")):
        gs = [fx.small_graph("%s%d" % (prefix, i), w) for i, w in enumerate(((u"a", u"b"), (u"\xe9", u","), (u"c",)))]
        # a node without tokens does not occur in files; an empty one has an index
        fx.write_bank(d + "/" + n, gs)
    s, t = GraphBank(d + "/s.xml", "graphml"), GraphBank(d + "/t.xml", "graphml")
    s.load()
    t.load()

    def corpus(als, name):
        c = ParallelGraphCorpus([], ["equals", "restates", "specifies", "generalizes", "intersects"])
        for i, j, al in als:
            gp = GraphPair(Pair(s, t), Pair(s.get_graph("g%d" % i), t.get_graph("h%d" % j)))
            for a, b, r in al:
                gp.add_align(Pair(a, b), r)
            gp.set_meta_data(fx.elem("graph_meta_data", None, [fx.elem("comment", "remark on " + name)]))
            c.append(gp)
        c.write(d + "/" + name)
    e, r = "equals", "restates"
    corpus([(0, 0, [("n0", "n0", e), ("n1", "n1", r), ("n2", "n2", e)]), (1, 1, [("n1", "n1", e)]), (2, 2, []), (2, 0, [("n0", "n0", e)])], "a.pgc")
    corpus([(0, 0, [("n0", "n0", e), ("n1", "n1", e), ("n2", "n1", r)][:2]), (1, 1, [("n1", "n1", r)]), (2, 2, [("n0", "n0", r)]), (2, 0, [("n0", "n0", e)])], "b.pgc")
    corpus([(1, 0, [])], "o/c.pgc")
    fx.write_bytes(d + "/src.xml", c15_ptc.S_DOC)
    fx.write_bytes(d + "/trg.xml", c15_ptc.T_DOC)
    for n, k in (("a.htd", (0, 4, 8)), ("o/b.htd", (0, 5, 7))):
        fx.write_bytes(d + "/" + n, c15_ptc.corpus_text([c15_ptc.LINKS[i] for i in k], "n", d + "/src.xml", d + "/trg.xml"))


def tree(d):
    out = {}
    for top, dirs, names in os.walk(d):
        for n in names:
            fn = os.path.join(top, n)
            rel = fn[len(d) + 1:]
            if n.endswith(".zip"):
                z = zipfile.ZipFile(fn)
                out[rel] = sorted((i, z.read(i)) for i in z.namelist())
                z.close()
            elif n.endswith(".pickle"):
                out[rel] = "pickle"
            else:
                out[rel] = fx.read_bytes(fn)
    return out


class Room(object):
    """a directory with the files, put back after each run"""

    def __init__(self, ck):
        self.d = os.path.realpath(ck.tmpdir())
        files(self.d)
        self.base = tree(self.d)

    def call(self, name, args):
        os.chdir(self.d)
        rc, out, err = script.run(name, args)
        after = tree(self.d)
        for rel in after:
            if rel not in self.base:
                os.unlink(os.path.join(self.d, rel))
            elif after[rel] != self.base[rel]:
                fx.write_bytes(os.path.join(self.d, rel), self.base[rel])
        for rel in self.base:
            if rel not in after:
                fx.write_bytes(os.path.join(self.d, rel), self.base[rel])
        # the order of graph banks in statistics is left open
        return rc, sorted(out.split("\n")), after, err


def well_formed(ck, room):
    deep = 2 if ck.quick else 3
    ck.bounds["well-formed"] = ("all subsets of up to %d options of %d tools, in all orders, all spellings, "
                                "before and after the file names" % (deep, len(TOOLS)))
    for t, (name, operands, least, opts) in enumerate(TOOLS):
        need = NEEDED.get(name, ())
        for k in range(min(deep, len(opts)) + 1 if not need else len(opts) + 1):
            for subset in itertools.combinations(range(len(opts)), k):
                if not set(need) <= set(subset):
                    continue
                for values in itertools.product(*[opts[i].values for i in subset]):
                    key = ("line", t, name, subset, values)
                    if not ck.want(key):
                        continue
                    with ck.case(key, name):
                        line(ck, room, name, operands, [opts[i] for i in subset], values, key)


def line(ck, room, name, operands, opts, values, key):
    plain = list(operands)
    for o, v in zip(opts, values):
        plain += o.plain(v)
    want = room.call(name, plain)
    ck.step()
    ok(want[0] == 0, "exit status", (plain, want[3]))
    kinds = [o.kind for o in opts]
    if "test" in kinds:
        eq(want[2], room.base, "a dry run changes files", plain)
    if len(opts) == 1 and opts[0].acts and not NEEDED.get(name):
        without = room.call(name, list(operands))
        ok(want != without, "an option without effect", plain)
    if "verbose" in kinds:
        rest = list(operands)
        for o, v in zip(opts, values):
            if o.kind != "verbose":
                rest += o.plain(v)
        quiet = room.call(name, rest)
        eq(want[1:3], quiet[1:3], "the verbose option changes the result", plain)
        ok(want[3] != quiet[3] or "test" in kinds, "the verbose option says nothing more", plain)
    seen = set()
    ways = [o.spellings(v) for o, v in zip(opts, values)]
    if len(opts) > 2 or (ck.quick and len(opts) > 1):
        # short, long, one with "="
        ways = [w[:2] + w[-1:] for w in ways]
    for spelling in itertools.product(*ways):
        for order in itertools.permutations(range(len(opts))):
            for before in itertools.product((False, True), repeat=len(opts)):
                if not operands and any(before):
                    continue
                first = [i for i in order if before[i]]
                last = [i for i in order if not before[i]]
                if first and opts[first[-1]].many and operands:
                    continue
                args = sum([spelling[i] for i in first], []) + list(operands) + sum([spelling[i] for i in last], [])
                if tuple(args) in seen or odd(args, opts, values):
                    continue
                seen.add(tuple(args))
                got = room.call(name, args)
                ck.step()
                eq(got[:3], want[:3], "the same options written differently", (name, args, plain, got[3]))
                ck.state((name, args))
    # flags written together
    shorts = [o.short[1] for o in opts if o.flag and o.short]
    if len(shorts) == len(opts) > 1:
        for order in itertools.permutations(shorts):
            for args in (["-" + "".join(order)] + list(operands), list(operands) + ["-" + "".join(order)]):
                got = room.call(name, args)
                ck.step()
                eq(got[:3], want[:3], "flags written together", (name, args))
    # and with an option with a value at the end
    rich = [(o, v[0]) for o, v in zip(opts, values) if not o.flag and o.short and len(v) == 1 and v[0][:1] != "-"]
    if len(rich) == 1 and len(shorts) == len(opts) - 1 > 0 and not rich[0][0].many:
        o, v = rich[0]
        for order in itertools.permutations(shorts):
            for end in ([o.short[1] + v], [o.short[1], v]):
                if not v and len(end) == 1:
                    continue
                cluster = ["-" + "".join(order) + end[0]] + end[1:]
                for args in (cluster + list(operands), list(operands) + cluster):
                    got = room.call(name, args)
                    ck.step()
                    eq(got[:3], want[:3], "flags and a value written together", (name, args))
    if operands and not (opts and opts[-1].many):
        if not any(a.startswith("-") for a in operands):
            args = plain[len(operands):] + ["--"] + list(operands)
            got = room.call(name, args)
            ck.step()
            eq(got[:3], want[:3], "file names after --", (name, args))
    ck.outcome((name, want[:3]))


def odd(args, opts, values):
    """a value that looks like an option must be joined to its option"""
    for o, v in zip(opts, values):
        if len(v) == 1 and v[0].startswith("-"):
            for i, a in enumerate(args):
                if a in (o.short, o.long, o.abbr) and v[0] != "-":
                    return True
    return False


def everything(ck, room):
    """--with-all stands for the other flags"""
    for name, operands, flags in (("pgc_stats.py", ["*.pgc"], "efpru"), ("gb_stats.py", ["s.xml", "-F", "graphml"], "efp")):
        for k in range(len(flags) + 1):
            for subset in itertools.combinations(flags, k):
                key = ("all", name, subset)
                if ck.want(key):
                    with ck.case(key, name):
                        both = room.call(name, ["-a"] + ["-" + f for f in subset] + operands)
                        each = room.call(name, ["-" + flags] + operands)
                        eq(both[:3], each[:3], "all included", key)
                        ck.step(2)


def faulty(ck, room):
    ck.bounds["faulty"] = "missing file names and values, unknown and ambiguous options, wrong values, in every place"
    for t, (name, operands, least, opts) in enumerate(TOOLS):
        lines = []
        for n in range(least):
            lines.append(list(operands[:n]))
        junk = [["--unknown"], ["-Z"], ["--unknown=1"], ["-Zx"]]
        for o in opts:
            if o.flag:
                junk += [[(o.long or o.short) + "=x"]]
                if o.short:
                    junk += [[o.short + "Z"], [o.short * 1 + "=x"]]
            else:
                if not o.none:
                    lines += [list(operands) + [n] for n in (o.short, o.long, o.abbr) if n]
                for n in (o.short, o.long, o.abbr):
                    if n:
                        for b in o.bad:
                            junk += [[n, b]]
                            if n.startswith("--"):
                                junk += [[n + "=" + b]]
                if len(o.values[0]) == 2 and not o.many:
                    lines.append(list(operands) + [o.long, "x"])
        longs = [o.long for o in opts if o.long] + ["--help"]
        for p in set(l[:i] for l in longs for i in range(3, len(l))):
            if len([l for l in longs if l.startswith(p)]) > 1 and p not in longs:
                junk.append([p])
        for j in junk:
            for k in range(len(operands) + 1):
                if k and operands[k - 1].startswith("-"):
                    continue
                lines.append(list(operands[:k]) + j + list(operands[k:]))
        fixed = {"pgc_stats.py": 1, "gb_stats.py": 1, "pgc_diff.py": 2, "pgc_split.py": 1, "ptc_diff.py": 2}.get(name)
        if fixed:
            lines.append(list(operands) + ["one.more"])
        for args in lines:
            key = ("faulty", t, name, args)
            if not ck.want(key):
                continue
            with ck.case(key, name):
                # a value for an option which takes any makes no fault of a flag
                rc, out, after, err = room.call(name, args)
                ck.step()
                ok(rc != 0, "a faulty command line is accepted", (name, args, out))
                eq(out, [""], "output in spite of a faulty command line", (name, args))
                eq(after, room.base, "a faulty command line changes files", (name, args))
                ok("usage" in err.lower() and "error" in err, "reason not reported", (name, args, err))
                ck.state((name, args))


def info(ck, room):
    for t, (name, operands, least, opts) in enumerate(TOOLS):
        for flag in ("-h", "--help", "--he"):
            lines = [[flag], [flag] + operands, operands + [flag]]
            for o in opts:
                for v in o.values:
                    lines += [[flag] + o.plain(v) + operands, o.spellings(v)[-1] + [flag], operands + o.plain(v) + [flag]]
            for args in lines:
                key = ("help", t, name, args)
                if not ck.want(key):
                    continue
                with ck.case(key, name):
                    rc, out, after, err = room.call(name, args)
                    ck.step()
                    eq(rc, 0, "exit status of help", (name, args, err))
                    eq(after, room.base, "help changes files", (name, args))
                    text = "\n".join(out) + err
                    ok("usage" in text.lower(), "help without usage", (name, args, text))
                    for o in opts:
                        for n in (o.short, o.long):
                            ok(not n or n in text, "an option is missing in help", (name, args, n))
                    ck.state((name, args))
        for args in ([["-v"], ["--version"]] if name not in ("ptc_chdir.py", "ptc_n_to_id.py") else []):
            key = ("version", t, name, args)
            if ck.want(key):
                with ck.case(key, name):
                    rc, out, after, err = room.call(name, args)
                    ck.step()
                    eq(rc, 0, "exit status of version", (name, args, err))
                    ok(version in "\n".join(out) + err, "version", (name, out, err))
                    eq(after, room.base, "version changes files", (name, args))


def run(ck):
    warnings.simplefilter("ignore")
    room = Room(ck)
    home = os.getcwd()
    try:
        well_formed(ck, room)
        everything(ck, room)
        faulty(ck, room)
        info(ck, room)
    finally:
        os.chdir(home)
