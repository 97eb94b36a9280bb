# -*- coding: utf-8 -*-
"""C31: split, join, pack and extract phrases"""

import itertools
import os
import zipfile

from daeso.gb.graphbank import GraphBank
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
from daeso.pgc.graphpair import GraphPair

from mc import fx, script
from mc.core import eq, ok, Mismatch

RELS = ["equals", "restates"]
META = "corpus_meta_data"

#        bank file -> graph ids; words of the graph show the bank and the id
BANKS = ["gb/s.xml", "gb/t.xml", u"gb/\xe9 & <1>.xml", "other/s.xml", "here.xml"]
EMPTY = "n2"        # node without tokens


def spec(bank, gid):
    g = fx.small_graph(gid, (u"b%d\xe9" % bank, gid, "last & <word>"))
    g.nodes[2] = (EMPTY, "e", [])
    return g


#       source bank, graph, target bank, graph, alignments
PAIRS = [(0, "g", 1, "g", (("n0", "n0", "equals"), ("n1", "n3", "restates"))),
         (0, "h", 1, "g", ()),
         (2, "g", 4, "h", (("n3", "n1", "restates"),)),
         (4, "g", 0, "g", (("n0", EMPTY, "equals"), (EMPTY, "n1", "restates"))),
         (1, "h", 0, "h", (("n1", "n1", "equals"), ("n0", "n3", "equals"), ("n3", "n0", "restates")))]


def make_banks(top):
    for b, path in enumerate(BANKS):
        d = os.path.dirname(os.path.join(top, path))
        if not os.path.isdir(d):
            os.makedirs(d)
        fx.write_bank(os.path.join(top, path), [spec(b, "g"), spec(b, "h")])


def build(top, seq, tag, relations=RELS, banks=None):
    """corpus with the pairs named by the numbers in seq; each pair is marked
    by its place and the tag"""
    banks = banks or {}
    gps = []
    for i, p in enumerate(seq):
        sb, sg, tb, tg, al = PAIRS[p]
        for b in (sb, tb):
            if b not in banks:
                banks[b] = GraphBank(os.path.join(top, BANKS[b]), "graphml")
                banks[b].load()
        pair = Pair(banks[sb], banks[tb])
        gp = GraphPair(pair, Pair(pair.source.get_graph(sg), pair.target.get_graph(tg)))
        for s, t, r in al:
            gp.add_align(Pair(s, t), r if r in relations else relations[0])
        gp.set_meta_data(fx.elem("graph_meta_data", None, [fx.elem("mark", u"%s%d \xe9" % (tag, i))]))
        gps.append(gp)
    return ParallelGraphCorpus(gps, list(relations),
                               fx.elem(META, None, [fx.elem("comment", "about " + tag)]))


def value(corpus, top):
    """what a corpus says, with banks relative to top"""
    out = []
    for gp in corpus:
        banks = [os.path.relpath(os.path.realpath(b.get_file_path()), os.path.realpath(top))
                 for b in gp.get_banks()]
        banks = [b if isinstance(b, unicode) else b.decode("utf-8") for b in banks]
        graphs = [(g.id, getattr(g, "tokens", None)) for g in gp.get_graphs()]
        al = sorted((n.source, n.target, r) for n, r in gp.alignments_iter())
        out.append((banks, graphs, al, fx.elem_value(gp.get_meta_data())))
    return (sorted(corpus.get_relations()), fx.elem_value(corpus.get_meta_data()), out)


def cut(v, i, j):
    return (v[0], v[1], v[2][i:j])


def read(path, **kw):
    corpus = ParallelGraphCorpus()
    corpus.read(path, **kw)
    return corpus


def tool(name, args, ctx, status=0):
    rc, so, se = script.run(name, args)
    if status is not None:
        ok((rc != 0) == (status != 0), "exit status of " + name, "%s\n%s\n%s" % (ctx, rc, se))
    return rc, so, se


# -- split and join -------------------------------------------------------------

def expected_parts(n, parts, size):
    if size:
        step = size
    else:
        step = 1
        while step * parts < n:
            step += 1
    return [(i, min(i + step, n)) for i in range(0, n, step)]


def split(ck, n, rot, opts, cwd, name):
    top = ck.tmpdir()
    make_banks(top)
    os.mkdir(os.path.join(top, "work"))
    os.chdir(os.path.join(top, cwd))
    seq = [(i * (rot + 1) + rot) % len(PAIRS) for i in range(n)]
    path = os.path.join(top, "work", name)
    build(top, seq, "c").write(path)
    before = fx.read_bytes(path)
    whole = value(read(path), top)
    eq(len(whole[2]), n, "pairs in the corpus")
    ctx = "%d pairs, %s" % (n, opts)
    parts = dict(opts).get("-p", 2)
    size = dict(opts).get("-s")
    args = [str(x) for o in opts for x in o if x != ""] + [os.path.relpath(path)]
    rc, so, se = tool("pgc_split.py", args, ctx)
    ck.step()
    eq(fx.read_bytes(path), before, "the corpus is left alone", ctx)
    root, ext = os.path.splitext(name)
    want = expected_parts(n, parts, size)
    files = sorted(f for f in os.listdir(os.path.dirname(path)) if f != name)
    eq(files, sorted("%s_%04d-%04d%s" % (root, i + 1, j, ext) for i, j in want), "names of parts", ctx)
    for f, (i, j) in zip(files, want):
        got = value(read(os.path.join(os.path.dirname(path), f)), top)
        eq(got, cut(whole, i, j), "part %s" % f, ctx)
    ck.state((n, want, rot))
    # back again
    if not want:
        return
    pattern = os.path.join(os.path.dirname(path), root + "_*")
    for how in ("pattern", "list", "backwards", "-f", "-V"):
        fns = [os.path.join(os.path.dirname(path), f) for f in files]
        a = {"pattern": [pattern], "list": fns, "backwards": fns[::-1]}.get(how) or [how, pattern]
        rc, so, se = tool("pgc_join.py", a, (ctx, how))
        ck.step()
        out = os.path.join(top, cwd, "joined.xml")
        fx.write_bytes(out, so)
        joined = value(read(out), top)
        os.unlink(out)
        eq(joined, whole, "the parts joined", (ctx, how))
    ck.outcome((n, want, rot, cwd, so))


def splits(ck):
    top = 6 if ck.quick else 10
    ck.bounds["split"] = ("corpora of 0 to %d pairs, 1 to size + 2 parts, or parts of 1 to size + 1 pairs; "
                          "three directories; joined again in 5 ways" % top)
    for n in range(top + 1):
        choices = [(("-p", p),) for p in range(1, n + 3)] + [(("-s", s),) for s in range(1, n + 2)]
        choices += [(), (("-f", ""), ("-p", 3)), (("-V", ""), ("-s", 2), ("-p", 1))]
        for opts in choices:
            for rot in ((0,) if ck.quick else (0, 1, 2)):
                for cwd, name in (("work", "c.xml"), (".", "c.part.pgc"), ("gb", "c")):
                    if ck.quick and cwd == "gb" and n not in (2, 5):
                        continue
                    key = ("split", n, opts, rot, cwd, name)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "split and join"):
                        split(ck, n, rot, opts, cwd, name)


def joins(ck):
    """all sequences of corpora"""
    pool = {"a": (0, 1), "b": (2,), "c": (), "d": (0, 0, 3), "e": (4, 2)}
    deep = 3 if ck.quick else 4
    ck.bounds["join"] = "all sequences of up to %d of 5 corpora and one with other relations" % deep
    for k in range(1, deep + 1):
        for names in itertools.product(sorted(pool) + ["x"], repeat=k):
            if ck.quick and k == 3 and (names[0] not in "acd" or names[2] == names[1]):
                continue
            key = ("join", names)
            if not ck.want(key):
                continue
            with ck.case(key, "join"):
                top = ck.tmpdir()
                make_banks(top)
                os.chdir(top)
                fns, values = [], []
                for i, nm in enumerate(names):
                    fn = os.path.join(("gb", ".", "other")[i % 3], "%d%s.pgc" % (i, nm))
                    rel = ["equals", "other"] if nm == "x" else RELS
                    # each has its own order of relations
                    if i % 2:
                        rel = rel[::-1]
                    build(top, pool.get(nm, (0,)), "%d%s" % (i, nm), rel).write(fn)
                    fns.append(fn)
                # file names are put in order
                order = sorted(fns)
                values = [value(read(f), top) for f in order]
                befores = [fx.read_bytes(f) for f in order]
                mixed = len(set(nm == "x" for nm in names)) > 1
                try:
                    rc, so, se = script.run("pgc_join.py", fns)
                except Exception, inst:
                    ok(mixed, "joining fails", "%s\n%r" % (fns, inst))
                    rc = None
                ck.step()
                eq([fx.read_bytes(f) for f in order], befores, "the corpora are left alone", fns)
                if mixed:
                    # either is fine, as long as it is noticed
                    ok(rc is None or rc != 0, "corpora with other relations are joined", fns)
                    continue
                eq(rc, 0, "exit status", (fns, se))
                fx.write_bytes("joined.xml", so)
                got = value(read("joined.xml"), top)
                eq(got[0], values[0][0], "relations", fns)
                eq(got[1], values[0][1], "meta-data of the first corpus", fns)
                eq(got[2], [p for v in values for p in v[2]], "all pairs in order", fns)
                ck.state(got)
                ck.outcome(so)


# -- pack ---------------------------------------------------------------------

def packs(ck):
    seqs = [(), (0,), (2,), (3, 0), (0, 1, 4), (2, 3), (4, 4)]
    #      corpus files: (directory, name)
    spots = [(".", "p.xml"), ("work", "q.xml"), ("work", "p.xml"), ("gb", "here.xml")]
    ck.bounds["pack"] = "all choices of up to 2 of %d corpora in all pairs of %d places" % (
        len(seqs), len(spots))
    for k in (1, 2):
        for choice in itertools.product(range(len(seqs)), repeat=k):
            for places in itertools.permutations(range(len(spots)), k):
                if ck.quick and k == 2 and places[0] > places[1] and choice[0] != 3:
                    continue
                for zipname in ("arch.zip", "work/arch.b.zip"):
                    if zipname != "arch.zip" and (sum(choice) + sum(places)) % 3:
                        continue
                    for how in ("names", "pattern"):
                        if how == "pattern" and (k == 1 or spots[places[0]][0] != "work" or
                                                 spots[places[1]][0] != "work"):
                            continue
                        for conflict in (False, True):
                            if conflict and (k == 2 and (choice[0] + choice[1]) % 2):
                                continue
                            key = ("pack", choice, places, zipname, how, conflict)
                            if not ck.want(key):
                                continue
                            with ck.case(key, "pack"):
                                pack(ck, [seqs[c] for c in choice], [spots[p] for p in places],
                                     zipname, how, conflict)


def pack(ck, seqs, places, zipname, how, conflict):
    top = ck.tmpdir()
    make_banks(top)
    os.mkdir(os.path.join(top, "work"))
    os.chdir(top)
    fns, need = [], {}
    for i, (seq, (d, nm)) in enumerate(zip(seqs, places)):
        if conflict and i == len(seqs) - 1:
            # a pair of two banks of the same name in different directories
            gps = build(top, seq, "z")
            b1, b2 = GraphBank(top + "/gb/s.xml", "graphml"), GraphBank(top + "/other/s.xml", "graphml")
            b1.load(), b2.load()
            gps.append(GraphPair(Pair(b1, b2), Pair(b1.get_graph("g"), b2.get_graph("g"))))
            gps.write(os.path.join(d, nm))
        else:
            build(top, seq, "z%d" % i).write(os.path.join(d, nm))
        fns.append(os.path.join(d, nm))
    wanted = []
    for i, fn in enumerate(fns):
        wanted.append(os.path.realpath(fn))
        for gp in read(fn, graph_loading=LOAD_NONE):
            wanted += [os.path.realpath(b.get_file_path()) for b in gp.get_banks()]
    wanted = sorted(set(wanted))
    names = [os.path.basename(w) for w in wanted]
    clash = len(set(names)) < len(names)
    befores = dict((w, fx.read_bytes(w)) for w in wanted)
    ctx = "%s %s %s" % (seqs, fns, wanted)
    args = [zipname] + (["work/*.xml"] if how == "pattern" else fns)
    try:
        rc, so, se = script.run("pgc_zip.py", args)
    except Exception, inst:
        if not clash:
            raise
        rc = 1
    ck.step()
    for w in wanted:
        eq(fx.read_bytes(w), befores[w], "packed files are left alone", ctx)
    if clash:
        # one of the two would be lost
        ok(rc != 0, "two files with one name are packed without an error", ctx)
        return
    eq(rc, 0, "exit status", (ctx, se))
    z = zipfile.ZipFile(zipname)
    d = os.path.splitext(os.path.basename(zipname))[0]
    got = [n if isinstance(n, unicode) else n.decode("utf-8") for n in z.namelist()]
    eq(sorted(got), sorted(_u(os.path.join(d, n)) for n in names), "contents of the archive", ctx)
    # deep down, where no relative path leads to the original files
    out = os.path.join(top, "un", "pack", "ed")
    os.makedirs(out)
    for n in z.namelist():
        base = os.path.basename(n)
        w = [w for w in wanted if _u(os.path.basename(w)) == _u(base)][0]
        data = z.read(n)
        eq(data, befores[w], "packed file " + repr(base), ctx)
        fx.write_bytes(os.path.join(out, _u(base)), data)
    z.close()
    # the unpacked corpora can be read without the original files
    for fn in fns:
        orig = value(read(fn), top)
        c = read(os.path.join(out, os.path.basename(fn)), relax_gb_paths=True)
        eq(all(os.path.realpath(b.get_file_path()).startswith(os.path.realpath(out))
               for gp in c for b in gp.get_banks()), True, "unpacked banks are used", ctx)
        v = value(c, top)
        strip = lambda v: (v[0], v[1], [p[1:] for p in v[2]])
        eq(strip(v), strip(orig), "unpacked corpus", ctx)
    ck.state((seqs, places, names))
    ck.outcome((names, zipname))


def _u(s):
    return s if isinstance(s, unicode) else s.decode("utf-8")


# -- phrases ------------------------------------------------------------------

def phrase(b, g, n):
    nodes = dict((i, toks) for i, label, toks in spec(b, g).nodes)
    return u" ".join(nodes[n])


def phrases(ck):
    delims = ["\t", ",", " || ", "", "\xc3\xa9"]
    deep = 3 if ck.quick else 4
    ck.bounds["phrases"] = "all corpora of up to %d of %d pairs, %d delimiters, one or two files" % (
        deep, len(PAIRS), len(delims))
    for k in range(deep + 1):
        for seq in itertools.product(range(len(PAIRS)), repeat=k):
            if ck.quick and k == 3 and sorted(seq) != list(seq):
                continue
            key = ("phrases", seq)
            if not ck.want(key):
                continue
            with ck.case(key, "phrases"):
                top = ck.tmpdir()
                make_banks(top)
                os.chdir(top)
                build(top, seq, "p").write("gb/p.pgc")
                build(top, seq[::-1] + (0,), "q").write("q.pgc")
                befores = map(fx.read_bytes, ("gb/p.pgc", "q.pgc"))
                for files in (("gb/p.pgc",), ("gb/p.pgc", "q.pgc"), ("q.pgc", "gb/p.pgc")):
                    for d in delims:
                        for verbose in (False, True):
                            rows = []
                            for f in files:
                                for p in (seq if f == "gb/p.pgc" else seq[::-1] + (0,)):
                                    rows.append(rows_of(top, PAIRS[p], d, verbose))
                            args = list(files)
                            if d != "\t":
                                args = ["-d", d] + args if d else ["--delimiter="] + args
                            if verbose:
                                args = ["-V"] + args
                            rc, so, se = tool("pgc_extract_phrases.py", args, args)
                            ck.step()
                            lines = so.decode("utf-8").split("\n")
                            eq(lines.pop(), "", "output ends with a line", args)
                            # per pair, in any order
                            got = []
                            for r in rows:
                                got.append(sorted(lines[:len(r)]))
                                del lines[:len(r)]
                            eq(got, map(sorted, rows), "phrases", (seq, args))
                            eq(lines, [], "no other lines", (seq, args))
                            ck.outcome(so)
                eq(map(fx.read_bytes, ("gb/p.pgc", "q.pgc")), befores, "corpora are left alone")
                ck.state(seq)


def rows_of(top, pair, d, verbose):
    sb, sg, tb, tg, al = pair
    out = []
    for s, t, r in al:
        cols = [phrase(sb, sg, s), r, phrase(tb, tg, t)]
        if verbose:
            cols = [_u(os.path.join(os.path.realpath(top), BANKS[sb])),
                    _u(os.path.join(os.path.realpath(top), BANKS[tb])), sg, tg, s, t] + cols
        out.append(_u(d).join(cols))
    return out


def run(ck):
    here = os.getcwd()
    try:
        splits(ck)
        joins(ck)
        packs(ck)
        phrases(ck)
    finally:
        os.chdir(here)
