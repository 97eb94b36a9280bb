# -*- coding: utf-8 -*-
"""
Corpus write / read round trip, on real files with real GraphML banks.

The space is a union of complete products over small alphabets; each product
varies the dimensions that the writer and the reader treat together.
"""
import copy
import cStringIO
import itertools
import os
import xml.etree.cElementTree as et

from daeso.gb.graphbank import GraphBank
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus, PGCGenerator, PGCParser, LOAD_ALL, LOAD_SPARSE, LOAD_NONE
from daeso.pgc.graphpair import GraphPair
from mc.core import eq, ok, Mismatch
from mc import fx

TEXTS = ["plain", "a<b & c>d", u"caf\xe9 \u20ac", "quote\"s'", "]]>", "two  blanks", "1"]
# names the corpus format itself uses, plus arbitrary ones
NAMES = ["comment", "file", "relation", "node_relations", "graphbanks", "graph_pair",
         "node_pair", "aligned_graphs", "aligned_nodes", "parallel_graph_corpus", "annotator", u"na\xefve"]


def metas(tag, rich):
    yield None
    yield fx.elem(tag)
    for t in TEXTS[:3]:
        yield fx.elem(tag, t)
        yield fx.elem(tag, None, who=t)
        yield fx.elem(tag, None, [fx.elem("comment", t)])
    yield fx.elem(tag, "mixed", [fx.elem("a", "1", x="y"), fx.elem("a", None, [fx.elem("b"), fx.elem("a", "2")])], k="v")
    if rich:
        for n in NAMES:
            yield fx.elem(tag, None, [fx.elem(n, "text")])
            yield fx.elem(tag, None, [fx.elem("wrap", None, [fx.elem(n, "text", id="1", n="1")]), fx.elem("after", "x")])
        e = fx.elem(tag, None, [fx.elem("x", "1"), fx.elem("y", "2")])
        e[0].tail = "tail text"
        yield e


def shapes_of(n):
    """all ordered forests of n elements, as nested tuples"""
    if n == 0:
        return [()]
    out = []
    for k in range(n):
        for first in shapes_of(k):
            for rest in shapes_of(n - 1 - k):
                out.append((first,) + rest)
    return out


def mixed(tag, shape, bits):
    """an element with the given forest below it, texts and tails as said by bits"""
    bits = list(bits)

    def make(tag, children, top):
        e = fx.elem(tag, u"in \xe9" if bits.pop() else None)
        if not top and bits.pop():
            e.tail = u"behind & it"
        for i, c in enumerate(children):
            e.append(make("c%d" % i, c, False))
        return e
    return make(tag, shape, True)


def value(corpus, banks=True):
    """everything a user can observe of a corpus, as plain values"""
    out = []
    for gp in corpus:
        b, g = gp.get_banks(), gp.get_graphs()
        out.append((
            [(x.get_file_path(), x.get_format()) for x in b] if banks else None,
            [x.id for x in g],
            sorted((n.source, n.target, r) for n, r in gp.alignments()),
            fx.elem_value(gp.get_meta_data())))
    return (list(corpus.get_relations()), fx.elem_value(corpus.get_meta_data()), out)


def graph_value(g):
    return (g.id, list(g.tokens), g.root,
            [(n, g.node[n].get("label"), list(g.node[n].get("tokens"))) for n in g],
            list(g.edges()))


class World(object):

    def __init__(self, ck):
        self.dir = ck.tmpdir()
        self.gb = []
        self.specs = []
        for i in range(3):
            specs = [fx.small_graph("g%d" % j, [u"w%d" % j, u"caf\xe9", "a&b"][:j + 1]) for j in range(3)]
            specs.append(fx.small_graph(u"gr\xe4f <&>", ["x"]))
            p = os.path.join(self.dir, "gb%d.xml" % i)
            fx.write_bank(p, specs)
            self.gb.append(p)
            self.specs.append(dict((s.id, s) for s in specs))
        self.out = os.path.join(self.dir, "out.pgc")

    def corpus(self, pairs, relations, meta):
        """pairs: [(source bank, target bank, source graph, target graph, alignments, meta)]"""
        banks = [GraphBank(p, "graphml") for p in self.gb]
        gps = []
        for sb, tb, sg, tg, al, m in pairs:
            gp = GraphPair(Pair(banks[sb], banks[tb]),
                           Pair(self.specs[sb][sg].build(), self.specs[tb][tg].build()),
                           meta_data=copy.deepcopy(m))
            for s, t, r in al:
                gp.add_align(Pair(s, t), r)
            gps.append(gp)
        return ParallelGraphCorpus(gps, list(relations), copy.deepcopy(meta))


def write(corpus, out, how, **opts):
    if how == "name":
        corpus.write(out, **opts)
    elif how == "file":
        f = open(out, "wb")
        try:
            corpus.write(f, **opts)
        finally:
            f.close()
    elif how == "generator":
        f = PGCGenerator()
        f.generate(corpus, outf=out, **opts)
    else:
        raise AssertionError(how)


def read(out, how, mode):
    if how == "name":
        return ParallelGraphCorpus(inf=out, graph_loading=mode)
    if how == "read":
        c = ParallelGraphCorpus()
        c.read(out, graph_loading=mode)
        return c
    if how == "file":
        f = open(out, "rb")
        try:
            return ParallelGraphCorpus(inf=f, graph_loading=mode)
        finally:
            f.close()
    if how == "parser":
        return PGCParser().parse(out, graph_loading=mode)
    raise AssertionError(how)


def roundtrip(ck, w, corpus, key, whow="name", rhow="name", mode=LOAD_NONE, **opts):
    before = value(corpus)
    write(corpus, w.out, whow, **opts)
    eq(value(corpus), before, "writing changed the corpus in memory", key)
    raw = fx.read_bytes(w.out)
    again = read(w.out, rhow, mode)
    ck.step(2)
    eq(value(again), before, "corpus read back differs", key)
    ok(again == corpus and corpus == again, "corpus read back is not equal", key)
    ok(not (again != corpus), "corpus read back is unequal", key)
    if mode != LOAD_NONE:
        for gp, old in zip(again, corpus):
            for g, h in zip(gp.get_graphs(), old.get_graphs()):
                eq(graph_value(g), graph_value(h), "graph read back differs", key)
    write(again, w.out, whow, **opts)
    ck.step()
    eq(fx.read_bytes(w.out), raw, "second writing gives other bytes", key)
    write(corpus, w.out, whow, **opts)
    ck.step()
    eq(fx.read_bytes(w.out), raw, "writing the same corpus again gives other bytes", key)
    ck.state(raw)
    ck.outcome(raw)


def run(ck):
    w = World(ck)
    N = ["n0", "n1", u"n\xf6 <2>"]
    R = ["equals", "restates", u"r\xe9l <&\"'>"]

    # 1. alignments of one pair: all one-to-one alignments over 3x3 nodes, up to 2 relations
    aligns = []
    for k in range(0, 4):
        for ss in itertools.combinations(N, k):
            for ts in itertools.permutations(N, k):
                for rs in itertools.product(R if k < 3 else R[:1], repeat=k):
                    aligns.append(tuple(zip(ss, ts, rs)))
    ck.bounds["alignments of one pair"] = len(aligns)
    for i, al in enumerate(aligns):
        key = ("alignments", al)
        if ck.want(key):
            with ck.case(key, "alignments"):
                c = w.corpus([(0, 1, "g2", "g2", al, None)], R, None)
                roundtrip(ck, w, c, key, pprint=bool(i % 2))

    # 2. sequences of pairs: banks x graphs
    choices = [(0, 1, "g0", "g0"), (0, 1, "g1", "g0"), (1, 0, "g0", "g1"), (0, 0, "g0", "g1"),
               (2, 1, u"gr\xe4f <&>", "g2"), (0, 2, "g0", u"gr\xe4f <&>")]
    depth = 3 if ck.quick else 4
    ck.bounds["pair sequences"] = "up to %d pairs from %d" % (depth, len(choices))
    for n in range(depth + 1):
        for seq in itertools.product(range(len(choices)), repeat=n):
            for mode in (LOAD_NONE, LOAD_SPARSE, LOAD_ALL):
                if mode != LOAD_NONE and n == depth and (sum(seq) % 3 or n == 4):
                    continue
                key = ("pairs", seq, mode)
                if not ck.want(key):
                    continue
                with ck.case(key, "pair sequences"):
                    c = w.corpus([choices[x] + (((N[0], N[1], R[j % 2]),), None)
                                  for j, x in enumerate(seq)], R[:2], None)
                    roundtrip(ck, w, c, key, mode=mode)

    # 3. meta-data of corpus and pair, every output and input way
    opts = [dict(pprint=p, abs_path=a) for p in (False, True) for a in (False, True)]
    cm = list(metas("corpus_meta_data", True))
    gm = list(metas("graph_meta_data", True))
    ck.bounds["corpus meta-data shapes"] = len(cm)
    for i, m in enumerate(cm):
        for oi, o in enumerate(opts):
            for npairs in (0, 2):
                key = ("corpus meta", i, oi, npairs)
                if ck.want(key):
                    with ck.case(key, "corpus meta-data"):
                        c = w.corpus([(0, 1, "g0", "g1", ((N[0], N[1], R[0]),), None)] * npairs, R[:2], m)
                        roundtrip(ck, w, c, key, **o)
    for i, m in enumerate(gm):
        for j, m2 in ([(j, gm[j]) for j in (0, 1, 5, 11)]):
            for oi, o in enumerate(opts):
                key = ("pair meta", i, j, oi)
                if ck.want(key):
                    with ck.case(key, "pair meta-data"):
                        c = w.corpus([(0, 1, "g0", "g1", ((N[0], N[1], R[0]),), m),
                                      (0, 1, "g1", "g1", (), m2)], R[:2], cm[5])
                        roundtrip(ck, w, c, key, **o)

    # 3b. text before, inside and after elements of the meta-data
    top = 3 if ck.quick else 4
    ck.bounds["mixed meta-data"] = "all trees of up to %d elements with and without each text" % top
    for n in range(1, top + 1):
        for shape in shapes_of(n):
            for head in itertools.product((0, 1), repeat=2):
                for o in (dict(pprint=True), dict(pprint=False)):
                    key = ("mixed meta", shape, head, o["pprint"])
                    if (not o["pprint"] and n == 3 and ck.quick) or not ck.want(key):
                        continue
                    with ck.case(key, "mixed meta-data"):
                        for bits in itertools.product((0, 1), repeat=2 * n - 1):
                            m = mixed("corpus_meta_data", shape, head + bits)
                            g = mixed("graph_meta_data", shape, head + bits)
                            c = w.corpus([(0, 1, "g0", "g1", ((N[0], N[1], R[0]),), g)], R[:2], m)
                            roundtrip(ck, w, c, (key, bits), **o)

    # 4. all ways of writing and reading
    shapes = [([], [], None),
              ([(0, 1, "g0", "g1", ((N[0], N[1], R[2]),), gm[8])], R, cm[8]),
              ([(0, 1, "g0", "g1", (), None), (1, 2, "g2", u"gr\xe4f <&>", ((N[0], N[1], R[0]), (N[1], N[0], R[1])), gm[4])], R[:2], None)]
    for si, (ps, rs, m) in enumerate(shapes):
        for whow in ("name", "file", "generator"):
            for rhow in ("name", "read", "file", "parser"):
                for mode in (LOAD_NONE, LOAD_SPARSE, LOAD_ALL):
                    for oi, o in enumerate(opts):
                        key = ("ways", si, whow, rhow, mode, oi)
                        if ck.want(key):
                            with ck.case(key, "ways"):
                                roundtrip(ck, w, w.corpus(ps, rs, m), key, whow, rhow, mode, **o)

    # 5. relations
    for n in range(4):
        for rs in itertools.permutations(R + ["Equals"], n):
            for p in (False, True):
                key = ("relations", rs, p)
                if ck.want(key):
                    with ck.case(key, "relations"):
                        roundtrip(ck, w, w.corpus([(0, 1, "g0", "g1", (), None)], rs, None), key, pprint=p)

    # 6. string form: str(corpus) is the corpus, too
    for si, (ps, rs, m) in enumerate(shapes):
        key = ("str", si)
        if ck.want(key):
            with ck.case(key, "string"):
                c = w.corpus(ps, rs, m)
                before = value(c)
                here = os.getcwd()
                text = str(c)
                eq(value(c), before, "str() changed the corpus", key)
                out = os.path.join(here, "str.pgc")
                fx.write_bytes(out, text)
                eq(value(ParallelGraphCorpus(inf=out, graph_loading=LOAD_NONE)), before,
                   "str(corpus) read back differs", key)
                os.unlink(out)

    # 7. longer lives: read, edit, write, read ... (the parsed corpus is edited, not the built one)
    depth = 2 if ck.quick else 3
    edits = ["add", "realign", "del", "meta", "cmeta", "append", "remove", "reverse"]

    def edit(c, op, w):
        if op == "add":
            if len(c):
                c[0].add_align(Pair("n5", "n6"), R[1])
        elif op == "realign":
            if len(c):
                c[-1].add_align(Pair(N[0], "n7"), R[0])
        elif op == "del":
            if len(c) and c[0].alignments():
                c[0].del_align(sorted(c[0].alignments(), key=lambda x: x[0].source)[0][0])
        elif op == "meta":
            if len(c):
                et.SubElement(c[0].get_meta_data(), "note").text = u"n\xf6te"
        elif op == "cmeta":
            c.set_meta_data(fx.elem("corpus_meta_data", "new", x="y"))
        elif op == "append":
            c.append(w.corpus([(2, 0, "g1", "g0", ((N[1], N[1], R[1]),), None)], [], None)[0])
        elif op == "remove":
            if len(c):
                c.remove(c[0])
        elif op == "reverse":
            c.reverse()

    for mode in (LOAD_NONE, LOAD_SPARSE):
        for si in (1, 2):
            for seq in itertools.product(edits, repeat=depth):
                key = ("life", mode, si, seq)
                if not ck.want(key):
                    continue
                with ck.case(key, "edit and save histories"):
                    ps, rs, m = shapes[si]
                    c = w.corpus(ps, rs, m)
                    ref = w.corpus(ps, rs, m)
                    for op in seq:
                        roundtrip(ck, w, c, key, mode=mode, pprint=(si == 1))
                        c = read(w.out, "name", mode)
                        edit(c, op, w)
                        edit(ref, op, w)
                        eq(value(c), value(ref), "corpus read and edited differs from one edited in memory", key)
                    roundtrip(ck, w, c, key, pprint=(si == 1))
