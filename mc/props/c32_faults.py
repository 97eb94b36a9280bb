# -*- coding: utf-8 -*-
"""C32: torn files and failing input and output.

Files: every proper prefix of every kind of file is read as the whole file
would be.  Output: for every call of write() of the stream, that call fails.
Input: for every call of read(), that call fails.
"""
import cStringIO
import itertools
import os
import re
import warnings
import xml.etree.cElementTree as et

from daeso.gb.gbstats import gb_stats
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.gb.graphstub import GraphStub
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL, LOAD_SPARSE, LOAD_NONE
from daeso.pgc.diff import pgc_diff
from daeso.pgc.evaluate import AlignEval
from daeso.pgc.graphpair import GraphPair
from daeso.pgc.pgcstats import pgc_stats
from daeso.ptc.document import HitaextDoc
from daeso.ptc.ielemtree import IndexElemTree
from daeso.stats.table import StatsTable
from daeso.stats.corpus import corpus_seg_stats
from daeso.utils.etree import write as write_etree
from mc import fx, script
from mc.core import eq, ok, Mismatch
from mc.props import c15_ptc

MODES = dict(all=LOAD_ALL, sparse=LOAD_SPARSE, none=LOAD_NONE)
META = ("corpus_meta_data", "graph_meta_data")


def refused(what, func, ctx, label="a torn file is read without an error"):
    try:
        r = func()
    except (KeyboardInterrupt, MemoryError, RuntimeError):
        raise Mismatch("torn input is not refused in an orderly way", ctx)
    except Exception:
        return
    raise Mismatch(label, "%s: %r gives %r" % (what, ctx, r))


def value(c):
    out = []
    for gp in c:
        g = gp.get_graphs()
        out.append(([b.get_file_path() for b in gp.get_banks()], (g.source.id, g.target.id),
                    fx.aligned(gp), fx.elem_value(gp.get_meta_data())))
    return (sorted(c.get_relations()), fx.elem_value(c.get_meta_data()), out)


def graph_value(g):
    return (g.id, g.tokens, g.root, sorted((n, g.node[n].get("label"), g.node[n].get("tokens")) for n in g),
            sorted(g.edges()))


def banks(d):
    w = (u"a\xe9", u"& b")
    fx.write_bank(d + "/s.xml", [fx.small_graph("g1", w), fx.small_graph("g2", (u"c",)), fx.small_graph("g3", w)])
    fx.write_bank(d + "/t.xml", [fx.small_graph("h1", w), fx.small_graph("h2", w)])


def corpora(d):
    """name -> corpus"""
    s, t = GraphBank(d + "/s.xml", "graphml"), GraphBank(d + "/t.xml", "graphml")
    s.load()
    t.load()

    def pair(i, j, al=(), meta=None, cls=GraphPair):
        gp = cls(Pair(s, t), Pair(s.get_graph(i), t.get_graph(j)))
        for a, b, r in al:
            gp.add_align(Pair(a, b), r)
        if meta is not None:
            gp.set_meta_data(meta)
        return gp
    al = (("n0", "n0", "equals"), ("n1", "n2", "restates"))
    rich = fx.elem("corpus_meta_data", u"t\xe9xt", [fx.elem("graphbanks", None, [fx.elem("file", "x")]), fx.elem("y", None, a="1")])
    return [("empty", ParallelGraphCorpus([], [])),
            ("one", ParallelGraphCorpus([pair("g1", "h1", al)], ["equals", "restates"])),
            ("two", ParallelGraphCorpus([pair("g1", "h1", al, fx.elem("graph_meta_data", "m", [fx.elem("c", u"\xe9")])),
                                         pair("g3", "h2")], ["equals", "restates"], rich))]


def cuts(data, fine=True):
    """lengths of the proper prefixes of data"""
    if fine:
        return range(len(data))
    return [i for i in range(len(data)) if i == 0 or data[i - 1] in ">\n\"" or data[i] in "<\""]


class FailOut(object):
    """accepts n writes, then fails"""

    def __init__(self, n):
        self.n = n
        self.parts = []

    def write(self, s):
        if len(self.parts) >= self.n:
            raise IOError(28, "No space left on device")
        self.parts.append(s.encode("utf-8") if isinstance(s, unicode) else s)

    def flush(self):
        pass


class FailIn(object):
    """reads in small pieces; the n-th read fails"""
    name = "unreliable"

    def __init__(self, data, n, size):
        self.s = cStringIO.StringIO(data)
        self.n = n
        self.size = size
        self.calls = 0

    def read(self, size=-1):
        self.calls += 1
        if self.calls > self.n:
            raise IOError(5, "Input/output error")
        return self.s.read(self.size if size is not None and size >= 0 else -1)

    def readline(self, size=-1):
        self.calls += 1
        if self.calls > self.n:
            raise IOError(5, "Input/output error")
        return self.s.readline()

    def __iter__(self):
        return iter(self.readline, "")


def run(ck):
    warnings.simplefilter("ignore")
    d = os.path.realpath(ck.tmpdir())
    banks(d)
    torn_corpora(ck, d)
    torn_banks(ck, d)
    torn_large(ck, d)
    torn_texts(ck, d)
    failing_reads(ck, d)
    failing_writes(ck, d)
    scripts(ck, d)
    segments(ck, d)


def torn_corpora(ck, d):
    for (name, c), pprint, mode in itertools.product(corpora(d), (False, True), sorted(MODES)):
        fn = d + "/full.pgc"
        c.write(fn, pprint=pprint)
        data = fx.read_bytes(fn)
        want = value(ParallelGraphCorpus(inf=fn, graph_loading=MODES[mode]))
        eq(want, value(c), "corpus as written", name)
        for lo in range(0, len(data), 60):
            key = ("corpus", name, pprint, mode, lo)
            if not ck.want(key):
                continue
            with ck.case(key, "torn corpora"):
                for i in cuts(data)[lo:lo + 60]:
                    ck.step()
                    torn = d + "/torn.pgc"
                    fx.write_bytes(torn, data[:i])
                    ck.state(("corpus", name, pprint, mode, i))
                    if not data[i:].strip():
                        eq(value(ParallelGraphCorpus(inf=torn, graph_loading=MODES[mode])), want,
                           "white space at the end matters", (key, i))
                        ck.outcome("complete")
                        continue
                    refused("corpus", lambda: value(ParallelGraphCorpus(inf=torn, graph_loading=MODES[mode])),
                            (name, pprint, mode, i, data[max(0, i - 40):i]))
                    c2 = ParallelGraphCorpus([], [])
                    refused("corpus", lambda: c2.read(torn, graph_loading=MODES[mode]), (name, i))
                    ck.outcome("refused")


def with_clients(bank, ids):
    """graph pairs of stubs for these graphs of the bank"""
    out = []
    for g in ids:
        stub = bank.get_graph_stub(g)
        gp = GraphPair(Pair(bank, bank), Pair(stub, GraphStub("other")))
        stub.add_client(gp)
        out.append(gp)
    return out


def torn_banks(ck, d):
    (name, c) = corpora(d)[2]
    c.write(d + "/c.pgc")
    for bank, side in (("s.xml", 0), ("t.xml", 1)):
        data = fx.read_bytes(d + "/" + bank)
        # ends of the graphs, for sparse loading
        ids = ("g1", "g2", "g3") if side == 0 else ("h1", "h2")
        full = GraphBank(d + "/" + bank, "graphml")
        full.load()
        want = dict((g, graph_value(full.get_graph(g))) for g in ids)
        subsets = [s for n in range(1, len(ids) + 1) for s in itertools.combinations(ids, n)]
        for lo in range(0, len(data), 40):
            key = ("bank", bank, lo)
            if not ck.want(key):
                continue
            with ck.case(key, "torn banks"):
                # another directory with the same corpus, so that workers and cases do not meet
                e = ck.tmpdir()
                for f in ("s.xml", "t.xml", "c.pgc"):
                    fx.write_bytes(e + "/" + f, fx.read_bytes(d + "/" + f))
                fn = e + "/" + bank
                for i in cuts(data)[lo:lo + 40]:
                    complete = not data[i:].strip()
                    fx.write_bytes(fn, data[:i])
                    ck.state(("bank", bank, i))
                    ctx = (bank, i, data[max(0, i - 40):i])
                    ck.step()
                    if complete:
                        for mode in ("all", "sparse"):
                            ParallelGraphCorpus(inf=e + "/c.pgc", graph_loading=MODES[mode])
                        continue
                    refused("corpus with torn bank",
                            lambda: len(ParallelGraphCorpus(inf=e + "/c.pgc", graph_loading=LOAD_ALL)), ctx)
                    # the bank on its own; once the file is whole again loading
                    # can be repeated
                    b = GraphBank(fn, "graphml")
                    refused("bank", b.load, ctx)
                    pos = [data.index('<graph id="%s"' % g) for g in ids]
                    pos = [data.index("</graph>", p) + 8 for p in pos]
                    sparse = []
                    for s in subsets:
                        ck.step()
                        sb = SparseGraphBank(fn, "graphml")
                        stubs = with_clients(sb, s)
                        needs = max(pos[ids.index(g)] for g in s)
                        try:
                            sb.load()
                        except (KeyboardInterrupt, MemoryError, RuntimeError):
                            raise
                        except Exception:
                            ck.outcome("sparse refused")
                            sparse.append((s, sb, stubs))
                        else:
                            eq([graph_value(gp.get_graphs().source) for gp in stubs], [want[g] for g in s],
                               "sparse loading", (ctx, s))
                            ok(i >= needs, "graphs are loaded from a bank which does not have them", (ctx, s))
                            ck.outcome("sparse whole")
                    fx.write_bytes(fn, data)
                    b.load()
                    eq(dict((g, graph_value(b.get_graph(g))) for g in ids), want,
                       "loading a repaired bank", ctx)
                    eq(len(b), len(ids), "number of graphs in a repaired bank", ctx)
                    for ss, sb, stubs in sparse:
                        sb.load()
                        eq([graph_value(gp.get_graphs().source) for gp in stubs], [want[g] for g in ss],
                           "sparse loading of a repaired bank", (ctx, ss))


def blocks(data):
    """cuts round the ends of read blocks and lines, and near the end"""
    out = set()
    for size in (1024, 4096, 8192, 16384, 65536):
        for i in range(size, len(data), size):
            out.update((i - 1, i, i + 1))
    step = max(1, len(data) // 50)
    for i in range(0, len(data), step):
        out.add(i)
        out.add(data.find(">", i) + 1)
        out.add(data.rfind("</", 0, len(data) - i))
    out.update(range(len(data) - 70, len(data)))
    return sorted(i for i in out if 0 <= i < len(data) and data[i:].strip())


def torn_large(ck, d):
    """files larger than the blocks in which they are read"""
    s, t = GraphBank(d + "/s.xml", "graphml"), GraphBank(d + "/t.xml", "graphml")
    s.load()
    t.load()
    c = ParallelGraphCorpus([], ["equals"])
    for i in range(300):
        gp = GraphPair(Pair(s, t), Pair(s.get_graph("g%d" % (i % 3 + 1)), t.get_graph("h%d" % (i % 2 + 1))))
        gp.add_align(Pair("n0", "n0"), "equals")
        c.append(gp)
    c.write(d + "/large.pgc", pprint=True)
    w = (u"a\xe9", u"& b")
    fx.write_bank(d + "/large.xml", [fx.small_graph("g%d" % i, w) for i in range(60)])
    fx.write_bytes(d + "/text.xml", c15_ptc.S_DOC)
    fx.write_bytes(d + "/large.htd", c15_ptc.corpus_text(list(c15_ptc.LINKS[:2]) * 200, "n", "text.xml", "text.xml"))

    def sparse(fn):
        b = SparseGraphBank(fn, "graphml")
        stubs = with_clients(b, ("g0", "g59"))
        b.load()
        return stubs
    readers = [("large.pgc " + m, "large.pgc", lambda fn, m=m: len(ParallelGraphCorpus(inf=fn, graph_loading=MODES[m])))
               for m in sorted(MODES)]
    readers += [("stream", "large.pgc", lambda fn: len(ParallelGraphCorpus(inf=open(fn), graph_loading=LOAD_NONE))),
                ("bank", "large.xml", lambda fn: GraphBank(fn, "graphml").load()),
                ("sparse bank", "large.xml", sparse),
                ("text corpus", "large.htd", lambda fn: HitaextDoc(file=fn)),
                ("text", "large.htd", lambda fn: IndexElemTree(fn))]
    for name, fn, func in readers:
        data = fx.read_bytes(d + "/" + fn)
        func(d + "/" + fn)
        todo = blocks(data)
        if ck.quick and name.endswith(("all", "sparse", "text")):
            todo = todo[::5]
        for lo in range(0, len(todo), 20):
            key = ("large", name, lo)
            if not ck.want(key):
                continue
            with ck.case(key, "torn large files"):
                for i in todo[lo:lo + 20]:
                    ck.step()
                    ck.state(("large", name, i))
                    torn = d + "/torn." + fn
                    fx.write_bytes(torn, data[:i])
                    refused(name, lambda: func(torn), (name, i, len(data)))


def torn_texts(ck, d):
    """parallel text corpora, their documents, tables"""
    fx.write_bytes(d + "/src.xml", c15_ptc.S_DOC)
    fx.write_bytes(d + "/trg.xml", c15_ptc.T_DOC)
    for method, n in (("n", 0), ("n", 3), ("id", 2), (None, 1)):
        fx.write_bytes(d + "/in.htd", c15_ptc.corpus_text(c15_ptc.LINKS[:n], method, "src.xml", "trg.xml"))
        HitaextDoc(file=d + "/in.htd").write(d + "/full.htd")
        data = fx.read_bytes(d + "/full.htd")
        for lo in range(0, len(data), 60):
            key = ("text corpus", method, n, lo)
            if not ck.want(key):
                continue
            with ck.case(key, "torn text corpora"):
                for i in cuts(data)[lo:lo + 60]:
                    ck.step()
                    ck.state(("text corpus", method, n, i))
                    fx.write_bytes(d + "/torn.htd", data[:i])
                    if data[i:].strip():
                        refused("text corpus", lambda: et.tostring(HitaextDoc(file=d + "/torn.htd").getroot()),
                                (method, n, i, data[max(0, i - 40):i]))
                    else:
                        eq(fx.elem_value(HitaextDoc(file=d + "/torn.htd").getroot()),
                           fx.elem_value(et.fromstring(data)), "white space at the end matters", key)
    for f in ("src.xml", "trg.xml"):
        data = fx.read_bytes(d + "/" + f)
        for key in ck.cases(("text", f, i) for i in cuts(data)):
            with ck.case(key, "torn texts"):
                ck.step()
                ck.state(key)
                i = key[2]
                if data[i:].strip():
                    e = ck.tmpdir()
                    fx.write_bytes(e + "/src.xml", c15_ptc.S_DOC)
                    fx.write_bytes(e + "/trg.xml", c15_ptc.T_DOC)
                    fx.write_bytes(e + "/" + f, data[:i])
                    fx.write_bytes(e + "/in.htd", c15_ptc.corpus_text(c15_ptc.LINKS[:1], "n", e + "/src.xml", e + "/trg.xml"))
                    refused("text", lambda: IndexElemTree(e + "/" + f), key)
                    refused("text", lambda: HitaextDoc(file=e + "/in.htd").get_doc_trees(), key)
    # tables: the part up to the second line of dashes matters
    c = corpora(d)[2][1]
    c.write(d + "/tab.pgc")
    for kind in ("pgc", "gb"):
        tab, gb = script.capture(pgc_stats, [d + "/tab.pgc"])[0]
        tab = tab if kind == "pgc" else gb
        tab.summarize()
        out = cStringIO.StringIO()
        tab.write(out=out)
        data = out.getvalue()
        end = [i for i in range(len(data)) if data.startswith("\n----", i)]
        ok(len(end) >= 2, "lines of dashes in a table", data)
        end = end[1] + 5
        for lo in range(0, end, 50):
            key = ("table", kind, lo)
            if not ck.want(key):
                continue
            with ck.case(key, "torn tables"):
                for i in range(lo, min(lo + 50, end)):
                    ck.step()
                    ck.state(("table", kind, i))
                    fx.write_bytes(d + "/torn.tab", data[:i])
                    new = tab.__class__()
                    refused("table", lambda: new.read(d + "/torn.tab"), (kind, i))


def failing_reads(ck, d):
    c = corpora(d)[2][1]
    c.write(d + "/c.pgc")
    data = fx.read_bytes(d + "/c.pgc")
    gdata = fx.read_bytes(d + "/s.xml")
    fx.write_bytes(d + "/in.htd", c15_ptc.corpus_text(c15_ptc.LINKS[:3], "n", "src.xml", "trg.xml"))
    hdata = fx.read_bytes(d + "/in.htd")

    def read_graphs(f):
        from daeso.gb.graphml import GraphmlParser
        return sorted(map(graph_value, GraphmlParser().parse_file(f, {}).values()))
    readers = [("corpus " + m, data, lambda f, m=m: value(ParallelGraphCorpus(inf=f, graph_loading=MODES[m])))
               for m in sorted(MODES)]
    readers += [("graphml", gdata, read_graphs),
                ("text corpus", hdata, lambda f: fx.elem_value(HitaextDoc(file=f).getroot()))]
    os.chdir(d)         # streams have no place of their own
    for name, text, func in readers:
        for size in (1, 7, 64, 4096):
            f = FailIn(text, 10 ** 9, size)
            want = func(f)
            eq(want, func(FailIn(text, 10 ** 9, 10 ** 6)), "reading in small pieces", (name, size))
            for lo in range(0, f.calls, 40):
                key = ("read", name, size, lo)
                if not ck.want(key):
                    continue
                with ck.case(key, "failing reads"):
                    for n in range(lo, min(lo + 40, f.calls)):
                        ck.step()
                        ck.state(("read", name, size, n))
                        try:
                            got = func(FailIn(text, n, size))
                        except IOError:
                            ck.outcome("error passed on")
                        else:
                            # the last read of all may not be needed
                            eq(got, want, "a failing read goes unnoticed", (name, size, n))
                            ck.outcome("not needed")


def writers(d):
    """(name, make object, write object to stream, plain value of object)"""
    out = []
    for i, (name, c) in enumerate(corpora(d)):
        for pprint in (False, True):
            for ab in (False, True):
                out.append((("corpus", name, pprint, ab), lambda i=i: corpora(d)[i][1],
                            lambda c, f, pprint=pprint, ab=ab: c.write(f, pprint=pprint, abs_path=ab), value))
    for n in (0, 2):
        out.append((("text corpus", n), lambda n=n: HitaextDoc(file=cStringIO.StringIO(
            c15_ptc.corpus_text(c15_ptc.LINKS[:n], "n", "src.xml", "trg.xml").encode("utf-8"))),
            lambda c, f: c.write(f), lambda c: fx.elem_value(c.getroot())))
    for pprint in (False, True):
        out.append((("element", pprint),
                    lambda: et.ElementTree(fx.elem("a", u"\xe9", [fx.elem("b", None, x=u"\xe9"), fx.elem("c", "<")])),
                    lambda c, f, pprint=pprint: write_etree(c, f, pprint=pprint), lambda c: fx.elem_value(c.getroot())))

    # made once: the order of the rows differs from call to call
    tables = script.capture(pgc_stats, [d + "/tab.pgc"])[0][:2]
    for t in tables:
        t.summarize()

    def table(k):
        return tables[k]

    def table_value(t):
        return [(k, list(c), c.overall) for k, c in t.items()]
    for k in (0, 1):
        for leg in (False, True):
            out.append((("table", k, leg), lambda k=k: table(k),
                        lambda c, f, leg=leg: c.write(out=f, legenda=leg), table_value))

    def evaluation():
        cs = corpora(d)
        e = AlignEval()
        e.add(cs[1][1], cs[1][1])
        e.add(cs[2][1], cs[2][1], "two")
        e.run_eval()
        return e

    def eval_value(e):
        f = cStringIO.StringIO()
        e.write(f)
        return f.getvalue()
    out.append((("evaluation",), evaluation, lambda e, f: e.write(f), eval_value))

    def annotated():
        a, b = corpora(d)[2][1], corpora(d)[2][1]
        b[0].add_align(Pair("n2", "n1"), "equals")
        return a, b
    out.append((("diff",), annotated, lambda p, f: pgc_diff(p[0], p[1], show_ident=True, out=f),
                lambda p: map(value, p)))
    return out


def failing_writes(ck, d):
    os.chdir(d)
    corpora(d)[2][1].write(d + "/tab.pgc")
    for key, make, write, val in writers(d):
        obj = make()
        f = FailOut(10 ** 9)
        write(obj, f)
        want = "".join(f.parts)
        calls = len(f.parts)
        ok(calls > 0, "nothing is written", key)
        for lo in range(0, calls, 10):
            k = ("write", key, lo)
            if not ck.want(k):
                continue
            with ck.case(k, "failing writes"):
                for n in range(lo, min(lo + 10, calls)):
                    for again in (None, n // 2):
                        # fail at call n, and once more earlier before it works
                        obj = make()
                        before = val(obj)
                        for m in (n, again):
                            if m is None:
                                continue
                            ck.step()
                            f = FailOut(m)
                            try:
                                write(obj, f)
                            except IOError:
                                pass
                            except Exception, inst:
                                raise Mismatch("failing output is reported as another error", (k, m, repr(inst)))
                            else:
                                raise Mismatch("failing output goes unnoticed", (k, m))
                            eq("".join(f.parts), want[:len("".join(f.parts))], "what was written before the failure", (k, m))
                            eq(val(obj), before, "object changed by failing output", (k, m))
                        f = FailOut(10 ** 9)
                        write(obj, f)
                        eq("".join(f.parts), want, "writing after a failure", (k, n))
                        ck.state((k, n, again))
                ck.outcome((key, calls))
    # a file that cannot be opened
    for key, make, write, val in writers(d):
        if key[0] not in ("corpus", "text corpus", "element"):
            continue
        for place in ("missing/out", "."):
            k = ("open", key, place)
            if not ck.want(k):
                continue
            with ck.case(k, "failing writes"):
                obj = make()
                before = val(obj)
                try:
                    write(obj, os.path.join(d, place))
                except IOError:
                    pass
                else:
                    raise Mismatch("output that cannot be opened goes unnoticed", k)
                eq(val(obj), before, "object changed by failing output", k)
                ck.step()


def call(name, args):
    rc, out, err = script.run(name, args)
    if rc != 0:
        raise IOError("exit status %r" % rc)
    if name == "pgc_cp.py" and err and not os.path.exists("out.pgc"):
        # copies what it can, with a warning for the rest
        raise IOError(err)
    return rc, out, err


def scripts(ck, d):
    """scripts given a torn file fail and leave the file as it is"""
    c = corpora(d)[2][1]
    c.write(d + "/c.pgc")
    data = fx.read_bytes(d + "/c.pgc")
    fx.write_bytes(d + "/in.htd", c15_ptc.corpus_text(c15_ptc.LINKS[:1], "n", "src.xml", "trg.xml"))
    HitaextDoc(file=d + "/in.htd").write(d + "/in.htd")
    hdata = fx.read_bytes(d + "/in.htd")
    calls = [("pgc_join.py", ["torn.pgc"], data), ("pgc_join.py", ["c.pgc", "torn.pgc"], data),
             ("pgc_split.py", ["torn.pgc"], data), ("pgc_diff.py", ["torn.pgc", "c.pgc"], data),
             ("pgc_diff.py", ["c.pgc", "torn.pgc"], data), ("pgc_chdir.py", ["-p", "", "x/", "torn.pgc"], data),
             ("pgc_cp.py", ["torn.pgc", "out.pgc"], data), ("pgc_extract_phrases.py", ["torn.pgc"], data),
             ("pgc_zip.py", ["out.zip", "torn.pgc"], data), ("pgc_stats.py", ["torn.pgc"], data),
             ("ptc_chdir.py", ["-d", "x", "torn.htd"], hdata), ("ptc_n_to_id.py", ["torn.htd"], hdata),
             ("pgc_agreement.py", ["c.pgc", "torn.pgc"], data)]
    for name, args, text in calls:
        fine = [i for i in cuts(text, not ck.quick) if text[i:].strip()]
        for lo in range(0, len(fine), 8):
            key = ("script", name, args, lo)
            if not ck.want(key):
                continue
            with ck.case(key, "scripts"):
                e = ck.tmpdir()
                for f in ("s.xml", "t.xml", "c.pgc", "src.xml", "trg.xml"):
                    fx.write_bytes(e + "/" + f, fx.read_bytes(d + "/" + f))
                os.chdir(e)
                torn = e + "/torn." + ("htd" if text is hdata else "pgc")
                for i in fine[lo:lo + 8]:
                    ck.step()
                    ck.state((key, i))
                    fx.write_bytes(torn, text[:i])
                    before = dict((f, fx.read_bytes(f)) for f in sorted(os.listdir(e)) if f not in ("out.zip", "out.pgc"))
                    refused(name, lambda: call(name, args), (name, args, i, text[max(0, i - 40):i]),
                            "a script accepts a torn file")
                    after = dict((f, fx.read_bytes(f)) for f in sorted(os.listdir(e)) if f not in ("out.zip", "out.pgc"))
                    eq(after, before, "a script given a torn file changes files", (name, args, i))
                os.chdir(d)


def segments(ck, d):
    """a segment with one torn file is not counted; it is as usual when the file is whole again"""
    c = corpora(d)[2][1]
    parts = [("ma", "x"), ("ma", "y/z"), ("na", "x"), ("na", "y/z")]
    for torn in parts:
        for f in ("f.pgc", "s.xml"):
            key = ("segment", torn, f)
            if not ck.want(key):
                continue
            with ck.case(key, "segments"):
                e = ck.tmpdir()
                for a, b in parts:
                    p = "%s/seg/pgc/%s/%s" % (e, a, b)
                    os.makedirs(p)
                    for x in ("s.xml", "t.xml"):
                        fx.write_bytes(p + "/" + x, fx.read_bytes(d + "/" + x))
                    c.write(p + "/f.pgc")
                    fx.write_bytes(p + "/f.pgc", re.sub(r">[^<]*/([st]\.xml)<", r">\1<", fx.read_bytes(p + "/f.pgc")))
                for w in ("work", "again"):
                    os.mkdir(e + "/" + w)
                os.chdir(e + "/again")
                count = lambda: script.capture(corpus_seg_stats, ["all"], "../seg", ("ma", "na"), ("x", "y/z"))
                count()
                want = dict((x, fx.read_bytes(x)) for x in sorted(os.listdir(".")))
                ok(want, "no statistics", key)
                os.chdir(e + "/work")
                fn = "%s/seg/pgc/%s/%s/%s" % (e, torn[0], torn[1], f)
                data = fx.read_bytes(fn)
                fine = [i for i in cuts(data, not ck.quick) if data[i:].strip()]
                for i in fine[::4] if ck.quick else fine:
                    fx.write_bytes(fn, data[:i])
                    refused("segment", count, (key, i), "a torn file of a segment is counted")
                    eq(os.getcwd(), e + "/work", "working directory after a torn file of a segment", (key, i))
                    ck.step()
                    ck.state((key, i))
                fx.write_bytes(fn, data)
                count()
                got = dict((x, fx.read_bytes(x)) for x in sorted(os.listdir(".")))
                eq(sorted(got), sorted(want), "tables after a torn file is whole again", key)
                for x in sorted(got):
                    eq(sorted(got[x].splitlines()), sorted(want[x].splitlines()), "statistics after a torn file is whole again", (key, x))
                os.chdir(d)
