# -*- coding: utf-8 -*-
"""C19: a graph corpus made from an aligned text corpus"""

import itertools
import os

from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.creation import pgc_from_ptc

from mc import fx, script
from mc.core import eq, ok, raises

SRC = [("s1", u"A b c"), ("s2", u"a"), ("s3", u"x \xe9 b\n b"), ("p1", u"b")]
TRG = [(u"t\xe9", u"a B"), ("t2", u""), ("s1", u"c d e f")]
RELS = ["equals", "restates", "specifies", "generalizes", "intersects"]


def doc(items, root, inside):
    out = u"".join(u'<%s id="%s">%s</%s>' % (i[0], i, t, i[0]) if i[0] in "sp" else u'<s id="%s">%s</s>' % (i, t) for i, t in items)
    return u'<?xml version="1.0" encoding="utf-8"?><%s>%s</%s>' % (root, out, root)


def ptc(path, links, sfile, tfile):
    out = [u'<?xml version="1.0" encoding="utf-8"?><hitaext><from><filename>%s</filename></from><to><filename>%s</filename></to><alignment method="id">' % (sfile, tfile)]
    for (ft, fi), (tt, ti) in links:
        out.append(u'<link from_tag="%s" from_id="%s" to_tag="%s" to_id="%s"/>' % (ft, fi, tt, ti))
    out.append(u"</alignment></hitaext>")
    return fx.write_bytes(path, u"".join(out))


def required(links, tags, mindiff, maxlen):
    texts = dict(SRC), dict(TRG)
    out = []
    for (ft, fi), (tt, ti) in links:
        if (ft, tt) != tuple(tags):
            continue
        a, b = texts[0][fi].lower().split(), texts[1][ti].lower().split()
        if max(len(a), len(b)) > maxlen:
            continue
        diff = len([x for x in a if x not in b]) + len([x for x in b if x not in a])
        if diff < mindiff:
            continue
        out.append((fi, ti))
    return out


def judge(corpus, want, d, rels, fmts, ctx):
    eq([(p.get_source_graph().id, p.get_target_graph().id) for p in corpus], want, "graph pairs", ctx)
    for p in corpus:
        eq(p.alignments(), [], "alignments to begin with", ctx)
        for bank, name, fmt, g in ((p.get_source_bank(), "/g1.xml", fmts[0], p.get_source_graph()),
                                   (p.get_target_bank(), "/g2.xml", fmts[1], p.get_target_graph())):
            eq(bank.get_file_path(), os.path.realpath(d + name), "graph bank", ctx)
            eq(bank.get_format(), fmt, "format of the bank", ctx)
            ok(bank.get_graph(g.id) is g, "graph not from its bank", ctx)
            eq(g.get_graph_token_string(), {"/g1.xml": "s", "/g2.xml": "t"}[name] + g.id, "graph", ctx)
    eq(sorted(corpus.get_relations()), sorted(rels), "relations", ctx)


def run(ck):
    d = ck.tmpdir()
    os.mkdir(d + "/docs")
    fx.write_bytes(d + "/docs/S.xml", doc(SRC, "doc", False))
    fx.write_bytes(d + "/docs/T.xml", doc(TRG, "text", False))
    fx.write_bytes(d + "/T.xml", doc(TRG, "text", False))
    fx.write_bank(d + "/g1.xml", [fx.GSpec(i, ["s" + i], [("n", "w", ["x"])], [], root="n") for i in ["extra"] + [i for i, t in SRC[::-1]]])
    fx.write_bank(d + "/g2.xml", [fx.GSpec(i, ["t" + i], [("n", "w", ["x"])], [], root="n") for i, t in TRG])
    links = [((i[0], i), ("s", j)) for i, t in SRC for j, u in TRG]
    ck.bounds["links"] = "all sequences of at most 2, all subsets of %d in two orders" % len(links)
    diffs, lens = (0, 1, 2, 3, 9), (0, 1, 2, 3, 4, 99999)
    seqs = [()] + [(l,) for l in links] + list(itertools.product(links, repeat=2))
    for mask in range(1 << len(links)):
        if ck.quick and mask % 5:
            continue
        sub = [l for i, l in enumerate(links) if mask >> i & 1]
        if len(sub) > 2:
            seqs.append(tuple(sub if mask % 2 else sub[::-1]))
    grid = [(t, a, b) for t in (("s", "s"), ("p", "s")) for a in diffs for b in lens]
    work = ck.tmpdir()
    for n, seq in enumerate(seqs):
        key = ("links", n)
        if not ck.want(key):
            continue
        with ck.case(key, "corpora made under filters"):
            f = d + "/c.ptc"
            ptc(f, seq, ("docs/S.xml", d + "/docs/S.xml")[n % 2], ("docs/T.xml", "/missing/x/T.xml")[n // 2 % 2])
            use = [grid[(n * 7 + k * 11) % len(grid)] for k in range(len(grid) if len(seq) < 2 else 4 if len(seq) == 2 else 2)]
            for tags, mindiff, maxlen in use:
                rels = RELS[n % 3:]
                want = required(seq, tags, mindiff, maxlen)
                c = pgc_from_ptc(f, d + "/g1.xml", d + "/g2.xml", focus_tags=Pair(*tags), graph_formats=Pair("graphml", "GraphML"),
                                 relations=rels, min_token_diff=mindiff, max_token_len=maxlen)
                judge(c, want, d, rels, ("graphml", "GraphML"), (seq, tags, mindiff, maxlen))
                ck.step(1)
                ck.outcome(want)
            c = pgc_from_ptc(f, d + "/g1.xml", d + "/g2.xml", graph_formats=Pair("graphml", "graphml"))
            judge(c, required(seq, ("s", "s"), 0, 99999), d, RELS, ("graphml", "graphml"), (seq, "defaults"))
            # a graph that does not exist is an error, not left out
            if n % 4 == 0:
                for bad in ((("s", "s1"), ("s", "t2")),):
                    fx.write_bank(d + "/g3.xml", [fx.GSpec("other", ["o"], [("n", "w", ["x"])], [], root="n")])
                    ptc(d + "/bad.ptc", seq + (bad,), "docs/S.xml", "docs/T.xml")
                    raises(Exception, lambda: pgc_from_ptc(d + "/bad.ptc", d + "/g1.xml", d + "/g3.xml", graph_formats=Pair("graphml", "graphml")),
                           "missing graph accepted", seq)
            # the script: two corpora at once
            if n % 3 == 0:
                other = links[n % len(links)]
                ptc(d + "/d.x.ptc", (other,), "docs/S.xml", "docs/T.xml")
                tags, mindiff, maxlen = use[-1]
                args = ["-p", f, d + "/d.x.ptc", "-s", d + "/g1.xml", d + "/g1.xml", "-t", d + "/g2.xml", d + "/g2.xml",
                        "--source-format", "graphml", "--target-format", "graphml", "--source-tag", tags[0],
                        "--min-token-diff", str(mindiff), "--max-token-len", str(maxlen)]
                rels = RELS
                if n % 2:
                    rels = ["one", "two"]
                    args += ["--relations"] + rels
                home = os.getcwd()
                os.chdir(work)
                try:
                    rc, so, se = script.run("pgc_from_ptc.py", args)
                finally:
                    os.chdir(home)
                eq(rc, 0, "exit status", se)
                eq(sorted(os.listdir(work)), ["c.pgc", "d.x.pgc"], "files written")
                for name, ls in (("/c.pgc", seq), ("/d.x.pgc", (other,))):
                    c = ParallelGraphCorpus(inf=work + name)
                    want = required(ls, tags, mindiff, maxlen)
                    judge(c, want, d, rels, ("graphml", "graphml"), (args, ls))
                    os.unlink(work + name)
                ck.step(2)
            ck.state(seq)
    for a, b, c in itertools.product(range(3), repeat=3):
        key = ("arguments", a, b, c)
        if a == 0 or not ck.want(key):
            continue
        with ck.case(key, "numbers of files"):
            if a == b == c:
                continue
            ptc(d + "/e.ptc", [links[0]], "docs/S.xml", "docs/T.xml")
            home = os.getcwd()
            os.chdir(work)
            try:
                rc, so, se = script.run("pgc_from_ptc.py", ["-p"] + [d + "/e.ptc"] * a + (["-s"] + [d + "/g1.xml"] * b if b else []) +
                                        (["-t"] + [d + "/g2.xml"] * c if c else []) + ["--source-format", "graphml", "--target-format", "graphml"])
            finally:
                os.chdir(home)
            ok(rc != 0, "numbers of files that do not agree accepted", (a, b, c))
            eq(os.listdir(work), [], "file written in spite of the error")
            ck.step(1)
