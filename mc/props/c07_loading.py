# -*- coding: utf-8 -*-
"""
Loading modes: all, sparse and none agree; dangling references are reported.
Corpus files are written as text by the harness, banks are real GraphML files.
"""
import cStringIO
import itertools
import os

from daeso.exception import DaesoError
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.gb.graphstub import GraphStub
from daeso.pgc.corpus import ParallelGraphCorpus, PGCParser, LOAD_ALL, LOAD_SPARSE, LOAD_NONE
from mc.core import eq, ok, raises, Mismatch
from mc import fx
from mc.props.c01_roundtrip import graph_value

MODES = ((LOAD_ALL, "all"), (LOAD_SPARSE, "sparse"), (LOAD_NONE, "none"))

# what exists: bank id -> (file, graph ids)
GRAPHS = {"1": ["g1", "g2", "e"], "2": ["g1", "g3", "g2"], "3": ["x"]}


def specs(bank):
    out = []
    for i, g in enumerate(GRAPHS[bank]):
        if g == "e":
            out.append(fx.GSpec("e", ["only", "tokens"], [], []))
        else:
            out.append(fx.small_graph(g, [bank + "w%d" % k for k in range(i + 1)]))
    return out


def pgc(files, pairs, relations=("equals", "restates"), attrs=None):
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<parallel_graph_corpus>',
           '<corpus_meta_data>m</corpus_meta_data><graphbanks>']
    for id, path, fmt in files:
        out.append('<file id="%s" format="%s">%s</file>' % (id, fmt, path))
    out.append('</graphbanks><node_relations>')
    out += ['<relation>%s</relation>' % r for r in relations]
    out.append('</node_relations><aligned_graphs>')
    for n, p in enumerate(pairs):
        sb, sg, tb, tg = p[:4]
        a = dict(n=str(n + 1), from_bank_id=sb, from_graph_id=sg, to_bank_id=tb, to_graph_id=tg)
        for x in (attrs or {}).get(n, ()):
            del a[x]
        out.append('<graph_pair %s><graph_meta_data>m%d</graph_meta_data>'
                   '<node_pair from_node_id="n0" to_node_id="n%d" relation="equals"/>'
                   '<node_pair from_node_id="n1" to_node_id="n0" relation="restates"/></graph_pair>' % (
                       " ".join('%s="%s"' % kv for kv in sorted(a.items())), n, 1 + n % 2))
    out.append('</aligned_graphs></parallel_graph_corpus>')
    return "\n".join(out)


def load(path, mode, way):
    if way == "init":
        return ParallelGraphCorpus(inf=path, graph_loading=mode)
    if way == "read":
        c = ParallelGraphCorpus()
        c.read(path, mode)
        return c
    return PGCParser().parse(path, graph_loading=mode)


def plain(c):
    return (list(c.get_relations()), fx.elem_value(c.get_meta_data()),
            [(gp.get_banks().source.get_file_path(), gp.get_banks().target.get_file_path(),
              gp.get_banks().source.get_format(),
              gp.get_source_graph().id, gp.get_target_graph().id,
              fx.aligned(gp), fx.elem_value(gp.get_meta_data())) for gp in c])


def run(ck):
    d = ck.tmpdir()
    files, truth = [], {}
    for b in sorted(GRAPHS):
        p = fx.write_bank(os.path.join(d, "b%s.xml" % b), specs(b))
        files.append((b, p, "graphml"))
        bank = GraphBank(p, "graphml")
        bank.load()
        for s in specs(b):
            truth[b, s.id] = graph_value(s.build())
    out = os.path.join(d, "c.pgc")
    refs = [(b, g) for b in sorted(GRAPHS) for g in GRAPHS[b]]
    pairs1 = [(x + y) for x in refs for y in refs if x != y]
    small = [("1", "g1", "2", "g1"), ("2", "g1", "1", "g1"), ("1", "g1", "1", "g2"),
             ("1", "g2", "1", "g1"), ("2", "g3", "3", "x"), ("1", "e", "2", "g2"), ("2", "g2", "1", "g2")]
    depth = 3 if ck.quick else 4
    seqs = [()] + [(p,) for p in pairs1] + [
        s for n in range(2, depth + 1) for s in itertools.product(small, repeat=n)]
    ck.bounds["pair sequences"] = len(seqs)
    for i, seq in enumerate(seqs):
        for way in (("init", "read", "parse") if len(seq) < 2 else (("init", "read", "parse")[i % 3],)):
            key = ("agree", seq, way)
            if not ck.want(key):
                continue
            with ck.case(key, "modes agree"):
                used = set(p[0] for p in seq) | set(p[2] for p in seq)
                # only what is needed, or everything
                fl = [f for f in files if f[0] in used] if i % 2 else files
                fx.write_bytes(out, pgc(fl, seq))
                got = {}
                for mode, name in MODES:
                    c = load(out, mode, way)
                    ck.step()
                    got[name] = plain(c)
                    want = (["equals", "restates"], ("corpus_meta_data", "m", "", [], []),
                            [(os.path.join(d, "b%s.xml" % p[0]), os.path.join(d, "b%s.xml" % p[2]),
                              "graphml", p[1], p[3],
                              sorted([("n0", "n%d" % (1 + n % 2), "equals"), ("n1", "n0", "restates")]),
                              ("graph_meta_data", "m%d" % n, "", [], []))
                             for n, p in enumerate(seq)])
                    eq(got[name], want, "corpus read with loading mode '%s'" % name, key)
                    objs, banks = {}, {}
                    for p, gp in zip(seq, c):
                        for role in ("source", "target"):
                            g = getattr(gp.get_graphs(), role)
                            b = getattr(gp.get_banks(), role)
                            ref = p[:2] if role == "source" else p[2:4]
                            if banks.setdefault(ref[0], b) is not b:
                                raise Mismatch("two bank objects for one bank", (key, name))
                            if objs.setdefault(ref, g) is not g:
                                raise Mismatch("two graph objects for one graph", (key, name))
                            if mode == LOAD_NONE:
                                ok(isinstance(g, GraphStub), "graph was loaded", (key, name))
                            else:
                                ok(isinstance(g, DaesoGraph), "graph is not loaded", (key, name, ref))
                                eq(graph_value(g), truth[ref], "content of the graph", (key, name, ref))
                                ok(b.get_graph(ref[1]) is g, "bank delivers another object", (key, name, ref))
                    if mode == LOAD_ALL:
                        for b in banks:
                            eq(sorted(g.id for g in banks[b]), sorted(GRAPHS[b]),
                               "graphs in a fully loaded bank", key)
                    if mode == LOAD_SPARSE:
                        for b in banks:
                            eq(sorted(g.id for g in banks[b]),
                               sorted(set(r[1] for r in objs if r[0] == b)),
                               "graphs in a sparsely loaded bank", key)
                    ck.outcome((name, sorted((r, graph_value(g) if mode != LOAD_NONE else g.id)
                                             for r, g in objs.items())))
                    ck.state((name, got[name]))

    # dangling references
    good = ("1", "g1", "2", "g1")
    missing_file = ("9", os.path.join(d, "absent.xml"), "graphml")
    bad = []
    for pos in range(3):
        for p, files_, label, modes in (
            (("1", "zz", "2", "g1"), files, "source graph id", "all sparse"),
            (("1", "g1", "2", "zz"), files, "target graph id", "all sparse"),
            (("1", "g3", "2", "g1"), files, "source graph id of another bank", "all sparse"),
            (("3", "g1", "2", "g1"), files, "source graph id of another bank", "all sparse"),
            (("1", "g1", "2", "e"), files, "target graph id of another bank", "all sparse"),
            ((u"1", u"z\xe9", "2", "g1"), files, "non-ASCII source graph id", "all sparse"),
            ((u"1", u"g1", "2", u"\u20acz"), files, "non-ASCII target graph id", "all sparse"),
            ((u"\u20ac", "g1", "2", "g1"), files, "non-ASCII source bank id", "all sparse none"),
            (("1", "g1", u"\xe9", "g1"), files, "non-ASCII target bank id", "all sparse none"),
            (("7", "g1", "2", "g1"), files, "source bank id", "all sparse none"),
            (("1", "g1", "7", "g1"), files, "target bank id", "all sparse none"),
            (("9", "g1", "2", "g1"), files + [missing_file], "source bank file", "all sparse"),
            (("1", "g1", "9", "g1"), files + [missing_file], "target bank file", "all sparse"),
        ):
            seq = [good] * 2
            seq.insert(pos, p)
            bad.append((label, tuple(seq), tuple(files_), modes.split(), None))
        for a in ("from_bank_id", "to_bank_id", "from_graph_id", "to_graph_id"):
            bad.append(("attribute " + a, (good,) * 3, tuple(files), ["all", "sparse", "none"], {pos: [a]}))
    for label, seq, files_, modes, attrs in bad:
        for way in ("init", "read", "parse"):
            for mode, name in MODES:
                key = ("dangling", label, seq, way, name)
                if attrs:
                    key += (repr(attrs),)
                if not ck.want(key):
                    continue
                with ck.case(key, "dangling references"):
                    fx.write_bytes(out, pgc(files_, seq, attrs=attrs))
                    ck.step()
                    if name in modes:
                        raises(DaesoError, lambda: load(out, mode, way),
                               "dangling reference is not reported as a corpus error", key)
                    else:
                        c = load(out, mode, way)
                        eq([(g.get_source_graph().id, g.get_target_graph().id) for g in c],
                           [(p[1], p[3]) for p in seq], "corpus without graphs", key)
                    ck.state(key)
                    ck.outcome((label, name))
