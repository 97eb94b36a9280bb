# -*- coding: utf-8 -*-
"""
Equality of graph pairs and corpora: all pairs of objects from a finite
universe are compared, in both directions, with == and !=, and the verdict is
compared with equality of plain values.
"""
import itertools
import os

from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.graphpair import GraphMapping, GraphMatching
from mc.core import eq, ok, Mismatch
from mc import fx


def meta(i, tag):
    """fresh meta-data element number i; equal index, equal value"""
    def build(tag, v):
        text, attrs, children, tail = v
        e = fx.elem(tag, text, [build(c[0], c[1:]) for c in children], **dict(attrs))
        e.tail = tail
        return e
    return build(tag, METAS[i])


def meta_universe():
    """values (text, attributes, children, tail) of meta-data elements, a
    child being (tag,) + value: complete products of the features of one
    element, of one child and of two children; all values are different"""
    texts = [None, "1", u"caf\xe9", u"caf\xe8"]
    attrs = [(), (("a", "1"),), (("a", "2"),), (("b", "1"),), (("a", "1"), ("b", "1")),
             (("a", "1"), ("b", "2")), (("a", u"\xe9"),)]
    out = [(t, a, (), None) for t in texts for a in attrs]
    kid = [(g, t, a, (), l) for g in "xy" for t in (None, "1", "2") for a in attrs[:5]
           for l in (None, "1", "2")]
    out += [(None, (), (k,), None) for k in kid]
    few = [("x", None, (), (), None), ("x", "1", (), (), None), ("y", None, (), (), None),
           ("x", None, (("a", "1"),), (), None), ("x", None, (), (), "1")]
    out += [(None, (), k, None) for k in itertools.product(few, repeat=2)]
    nest = [("x", None, (), (c,), None) for c in few]
    out += [(None, (), (c,), None) for c in nest]
    out += [(None, (), (c, few[2]), None) for c in nest]
    out += [(None, (), (few[0],) * 3, None), ("1", (), (few[0],), None), (None, attrs[1], (few[0],), None)]
    assert len(set(out)) == len(out)
    # number 3 is the one which meta_alias spells with other white space
    v = (None, (), (("x", "1", (), (), None), ("y", None, (), (), None)), None)
    out.remove(v)
    out.insert(3, v)
    return out


METAS = meta_universe()
N_META = len(METAS)
ALIAS = 100     # meta-data with the same value as 3 but other white space


def meta_alias(tag):
    e = fx.elem(tag, "\n  ", [fx.elem("x", " 1 "), fx.elem("y", "\n")])
    e[0].tail = "\n  "
    e.tail = "\n"
    return e


def judge(ck, a, b, same, ctx):
    for x, y in ((a, b), (b, a)):
        ck.step(2)
        eq(bool(x == y), same, "verdict of ==", ctx)
        eq(bool(x != y), not same, "verdict of !=", ctx)


def run(ck):
    files = []
    d = ck.tmpdir()
    for n in ("s.xml", "t.xml"):
        files.append(fx.write_bytes(os.path.join(d, n), "<graphml/>"))
    os.symlink(files[0], os.path.join(d, "link.xml"))
    os.link(files[0], os.path.join(d, "hard.xml"))
    paths = {
        # path written, which file it denotes
        0: (files[0], 0),
        1: (files[1], 1),
        2: (os.path.join(d, "link.xml"), 0),
        3: (os.path.join(d, "..", os.path.basename(d), "s.xml"), 0),
        4: (os.path.join(d, "missing-1.xml"), 4),
        5: (os.path.join(d, "missing-2.xml"), 5),
        6: (os.path.join(d, "hard.xml"), 0),
    }

    # generic pairs
    vals = ["a", "b", u"\xe9", 1, None, ""]
    for key in ck.cases(("pair", p, q) for p in itertools.product(range(len(vals)), repeat=2)
                        for q in itertools.product(range(len(vals)), repeat=2)):
        with ck.case(key, "pairs"):
            p, q = key[1:]
            judge(ck, Pair(vals[p[0]], vals[p[1]]), Pair(vals[q[0]], vals[q[1]]), p == q, key)
            ck.outcome(p == q)
            ck.state(key)

    # graph banks
    for key in ck.cases(("bank", i, j) for i in paths for j in paths):
        with ck.case(key, "banks"):
            judge(ck, GraphBank(paths[key[1]][0], "graphml"),
                  GraphBank(paths[key[2]][0], "graphml"),
                  paths[key[1]][1] == paths[key[2]][1], key)
            ck.state(key)

    # graph pairs: a universe of descriptions
    A, B = "n0", "n1"
    edges = [(s, t, r) for s in (A, B) for t in (A, B) for r in ("equals", "restates")]
    aligns = [()]
    for k in (1, 2):
        for c in itertools.combinations(edges, k):
            if len(set((s, t) for s, t, r in c)) == k:
                aligns.append(c)
    one2one = [c for c in aligns if len(set(e[0] for e in c)) == len(c) == len(set(e[1] for e in c))]
    full = [c for c in itertools.combinations(edges, 4) if len(set((s, t) for s, t, r in c)) == 4]

    def make(desc):
        cls, bp, gi, al, m, order = desc
        gp = cls(Pair(GraphBank(paths[bp[0]][0], "graphml"), GraphBank(paths[bp[1]][0], "graphml")),
                 Pair(DaesoGraph(id=gi[0]), DaesoGraph(id=gi[1])),
                 meta_data=meta_alias("graph_meta_data") if m == ALIAS else
                           (None if m is None else meta(m, "graph_meta_data")))
        for s, t, r in (reversed(al) if order else al):
            gp.add_align(Pair(s, t), r)
        return gp

    def value(desc):
        cls, bp, gi, al, m, order = desc
        if m is None:
            m = 0
        return (tuple(paths[i][1] for i in bp), gi, frozenset(al), 3 if m == ALIAS else m)

    base = ((0, 1), ("g1", "g2"))
    universes = []
    for cls, als in ((GraphMatching, one2one), (GraphMapping, aligns + full)):
        cn = cls.__name__
        # alignments
        u = [(cls,) + base + (a, None, o) for a in als for o in (0, 1) if o == 0 or len(a) > 1]
        universes.append((cn + " alignments", u))
        # meta data x (few) alignments
        al2 = [(), ((A, A, "equals"),)]
        u = [(cls,) + base + (a, m, 0) for a in al2 for m in [None, ALIAS] + range(N_META)
             if cls is GraphMatching and a == () or m in (None, ALIAS) or m < 20]
        universes.append((cn + " meta-data", u))
        # banks and graphs
        u = [(cls, bp, gi, (), None, 0)
             for bp in itertools.product(sorted(paths), repeat=2)
             for gi in (("g1", "g2"), ("g2", "g1"), ("g1", "g3"))]
        if ck.quick:
            u = [x for x in u if x[1][0] in (0, 1, 2, 4) and x[1][1] in (0, 1, 5, 6)]
        universes.append((cn + " banks and graphs", u))
    ck.bounds["universes compared pairwise"] = dict((n, len(u)) for n, u in universes)
    for name, u in universes:
        for i, d1 in enumerate(u):
            if not ck.want((name, i)):
                continue
            with ck.case((name, i), name):
                for d2 in u:
                    same = value(d1) == value(d2)
                    judge(ck, make(d1), make(d2), same, (d1, d2))
                    ck.outcome((name, same))
                ck.state((name, i))
                g = make(d1)
                judge(ck, g, g, True, (d1, "itself"))

    # corpora
    pd = [(GraphMatching,) + base + (a, None, 0)
          for a in ((), ((A, A, "equals"),), ((A, A, "restates"),))]
    rels = [None, ["equals"], ["equals", "restates"], ["restates", "equals"]]
    cdesc = [(ps, ri, m)
             for n in (0, 1, 2) for ps in itertools.product(range(len(pd)), repeat=n)
             for ri in range(len(rels)) for m in (None, 0, 1, 3, 4, ALIAS)]
    if ck.quick:
        cdesc = [c for c in cdesc if len(c[0]) < 2 or c[1] in (1,) and c[2] in (None, 3)]
    ck.bounds["corpora compared pairwise"] = len(cdesc)

    def cmake(desc):
        ps, ri, m = desc
        return ParallelGraphCorpus(
            [make(pd[i]) for i in ps], rels[ri] and list(rels[ri]),
            None if m is None else meta_alias("corpus_meta_data") if m == ALIAS
            else meta(m, "corpus_meta_data"))

    def cvalue(desc):
        ps, ri, m = desc
        # the order in which relations were listed carries no meaning
        return (ps, frozenset(rels[ri] or ()), 3 if m == ALIAS else m)

    for i, c1 in enumerate(cdesc):
        if not ck.want(("corpus", c1)):
            continue
        with ck.case(("corpus", c1), "corpora"):
            ck.state(c1)
            for c2 in cdesc:
                same = cvalue(c1) == cvalue(c2)
                judge(ck, cmake(c1), cmake(c2), same, (c1, c2))
                ck.outcome(("corpus", same))
            c = cmake(c1)
            judge(ck, c, c, True, (c1, "itself"))
            ok(not (c == list(c)) or not list(c), "corpus equals a plain list", c1)
