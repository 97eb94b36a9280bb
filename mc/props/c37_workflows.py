# -*- coding: utf-8 -*-
"""C37: workflows

All sequences of steps up to a depth on a directory with corpora and graph
banks; each step is a tool, a program which uses the library, or a move of
files. A model says which pairs every corpus holds after each step, and where
their graphs are.
"""
import os
import posixpath
import shutil
import warnings
import xml.etree.cElementTree as et
import zipfile

from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL, LOAD_SPARSE, LOAD_NONE

from mc import fx, script
from mc.core import eq, ok, Mismatch

PATHS, RELATIVE = {}, {}
RELS = ["equals", "restates"]
E, R = RELS

# content of graph banks: name -> graph -> words
CONTENT = dict(S=dict(g=("sg", "x"), h=("sh", "y")), T=dict(g=("tg", "x"), h=("th", "y")), U=dict(g=("ug", "z")))


def bank_text(name):
    gs = [fx.small_graph(i, w) for i, w in sorted(CONTENT[name].items())]
    return (u'<?xml version="1.0" encoding="UTF-8"?>\n<graphml>\n' + fx.KEYS +
            u"\n".join(g.xml() for g in gs) + u"\n</graphml>\n").encode("utf-8")


def pair(s, sg, t, tg, al, mark):
    return (s, sg, t, tg, frozenset(al), mark)


class Model(object):
    """banks: path -> content; corpora: path -> tuple of pairs; a bank in a
    pair is the text of its path, '/ROOT' stands for the directory of the world"""

    def __init__(self, banks, corpora):
        self.banks = banks
        self.corpora = corpora

    def copy(self):
        return Model(dict(self.banks), dict(self.corpora))

    def key(self):
        return repr((sorted(self.banks.items()),
                     sorted((k, [(p[:4], sorted(p[4]), p[5]) for p in v]) for k, v in self.corpora.items())))

    def dirs(self):
        return sorted(set(posixpath.dirname(p) for p in list(self.banks) + list(self.corpora)))

    def resolve(self, corpus, ref):
        """absolute path within the world"""
        k = corpus, ref
        if k not in PATHS:
            PATHS[k] = posixpath.normpath(posixpath.join("/ROOT", posixpath.dirname(corpus), ref))
        return PATHS[k]

    def content(self, corpus, ref):
        p = self.resolve(corpus, ref)
        return self.banks.get(p[6:]) if p.startswith("/ROOT/") else None

    def readable(self, corpus):
        for p in self.corpora[corpus]:
            for ref, gid in ((p[0], p[1]), (p[2], p[3])):
                c = self.content(corpus, ref)
                if c is None or gid not in CONTENT[c]:
                    return False
        return True

    def moved(self, corpus, target, absolute=False, relax=False):
        """pairs of a corpus as written to target"""
        out = []
        for p in self.corpora[corpus]:
            refs = []
            for ref in (p[0], p[2]):
                path = self.resolve(corpus, ref)
                if relax and path[6:] not in self.banks:
                    path = self.resolve(corpus, posixpath.basename(ref))
                if not absolute:
                    k = path, posixpath.dirname(target)
                    if k not in RELATIVE:
                        RELATIVE[k] = posixpath.relpath(path, posixpath.join("/ROOT", k[1]))
                    path = RELATIVE[k]
                refs.append(path)
            out.append((refs[0], p[1], refs[1], p[3], p[4], p[5]))
        return tuple(out)

    def banks_of(self, corpus):
        return sorted(set(self.resolve(corpus, r) for p in self.corpora[corpus] for r in (p[0], p[2])))


def initial():
    banks = {"A/s.xml": "S", "A/t.xml": "T", "B/s.xml": "U"}
    one = (pair("s.xml", "g", "t.xml", "g", [("n0", "n0", E)], "one1"),
           pair("s.xml", "h", "t.xml", "h", [("n1", "n2", R), ("n0", "n0", E)], "one2"),
           pair("t.xml", "g", "../B/s.xml", "g", [], "one3"))
    two = (pair("s.xml", "g", "../A/s.xml", "g", [("n2", "n1", E)], "two1"),
           pair("../A/t.xml", "h", "s.xml", "g", [("n1", "n1", R)], "two2"))
    return Model(banks, {"A/one.pgc": one, "B/two.pgc": two})


def corpus_text(pairs):
    ids = {}
    for p in pairs:
        for r in (p[0], p[2]):
            ids.setdefault(r, str(len(ids) + 1))
    t = u'<?xml version="1.0" encoding="utf-8"?>\n<parallel_graph_corpus>\n<corpus_meta_data/>\n<graphbanks>'
    for r in sorted(ids):
        t += u'<file format="graphml" id="%s">%s</file>' % (ids[r], r)
    t += u"</graphbanks>\n<node_relations>" + u"".join(u"<relation>%s</relation>" % r for r in RELS) + u"</node_relations>\n<aligned_graphs>"
    for s, sg, tt, tg, al, mark in pairs:
        t += u'<graph_pair from_bank_id="%s" from_graph_id="%s" to_bank_id="%s" to_graph_id="%s">' % (ids[s], sg, ids[tt], tg)
        t += u"<graph_meta_data><mark>%s</mark></graph_meta_data>" % mark
        for a, b, r in sorted(al):
            t += u'<node_pair from_node_id="%s" relation="%s" to_node_id="%s"/>' % (a, r, b)
        t += u"</graph_pair>"
    return (t + u"</aligned_graphs>\n</parallel_graph_corpus>\n").encode("utf-8")


def parse(data, root):
    """(pairs, graph banks) of the text of a corpus, without the library"""
    tree = et.fromstring(data)
    banks = {}
    for f in tree.findall("graphbanks/file"):
        t = f.text.strip()
        ok(f.get("id") not in banks, "identifiers of graph banks are unique", data)
        banks[f.get("id")] = t.replace(root + "/", "/ROOT/")
    out = []
    for gp in tree.findall("aligned_graphs/graph_pair"):
        al = [(n.get("from_node_id"), n.get("to_node_id"), n.get("relation")) for n in gp.findall("node_pair")]
        ok(len(al) == len(set(al)), "alignments are written once", data)
        out.append((banks[gp.get("from_bank_id")], gp.get("from_graph_id"), banks[gp.get("to_bank_id")], gp.get("to_graph_id"),
                    frozenset(al), gp.findtext("graph_meta_data/mark")))
    eq(sorted(r.text for r in tree.findall("node_relations/relation")), sorted(RELS), "relations", data)
    return tuple(out), sorted(banks.values())


# -- steps ----------------------------------------------------------------------
# a step gives the model after it, and does the same to the files; a step that
# has to be refused gives None

class World(object):

    def __init__(self, root):
        self.root = root
        self.seen = set()

    def put(self, files):
        there = self.get()
        for n in there:
            if n not in files:
                os.unlink(os.path.join(self.root, n))
        for n, data in files.items():
            if there.get(n) != data:
                p = os.path.join(self.root, n)
                if not os.path.isdir(os.path.dirname(p)):
                    os.makedirs(os.path.dirname(p))
                fx.write_bytes(p, data)
        for top, dirs, names in os.walk(self.root, topdown=False):
            if top != self.root and not os.listdir(top):
                os.rmdir(top)

    def get(self):
        out = {}
        for top, dirs, names in os.walk(self.root):
            for n in names:
                p = os.path.join(top, n)
                out[os.path.relpath(p, self.root)] = fx.read_bytes(p)
        return out

    def tool(self, cwd, name, *args):
        os.chdir(os.path.join(self.root, cwd))
        try:
            rc, out, err = script.run(name, args)
        finally:
            os.chdir("/")
        if rc:
            raise Refused(err)
        return out

    def load(self, fn, how=LOAD_SPARSE, **kw):
        c = ParallelGraphCorpus()
        c.read(os.path.join(self.root, fn), how, **kw)
        return c


class Refused(Exception):
    pass


def steps(m):
    """all steps in a state of the model"""
    out = []
    corpora = sorted(m.corpora)
    for c in corpora:
        d, b = posixpath.split(c)
        for t in ("A", "B", ""):
            if t != d and (t in m.dirs() or t == ""):
                out.append(("cp", c, posixpath.join(t, b)))
        out += [(k, c) for k in ("split", "align", "del", "abs", "relax")]
        for t in ("A", "B"):
            if t != d and t in m.dirs() and posixpath.join(t, b) not in m.corpora:
                out.append(("mv file", c, posixpath.join(t, b)))
        for e in corpora:
            if e != c:
                if c < e or DEEP[0]:
                    out.append(("add", c, e))
                if d == posixpath.dirname(e):
                    out.append(("cp -o", c, e))
    for d in m.dirs():
        if [c for c in corpora if posixpath.dirname(c) == d]:
            out.append(("join", d))
            out.append(("zip", d))
            out.append(("chdir", d, "", "../A/"))
            out.append(("chdir", d, "../B/", "../A/"))
    for a, b in (("A", "C"), ("B", "A/B"), ("C", "A"), ("A/B", "B")):
        ds = m.dirs()
        if any(x == a or x.startswith(a + "/") for x in ds) and not any(x == b or x.startswith(b + "/") for x in ds) and (
                posixpath.dirname(b) in ds + [""]):
            out.append(("mv", a, b))
    return [s for s in out if not aside(expect(m, s), m)]


def aside(m, before):
    """is there a pair of a graph with itself (GraphStub excludes these), or a
    path which leads out of the world?"""
    if m is not None:
        for c, ps in m.corpora.items():
            if before.corpora.get(c) is ps:
                # the same texts
                continue
            for p in ps:
                if p[1] == p[3] and m.resolve(c, p[0]) == m.resolve(c, p[2]):
                    return True
                for r in (p[0], p[2]):
                    if "/ROOT" in r[1:] or not m.resolve(c, r).startswith("/ROOT/"):
                        return True
    return False


def expect(m, step):
    """the model after a step, None if it has to be refused"""
    kind = step[0]
    n = m.copy()
    if kind in ("cp", "cp -o"):
        c, t = step[1:]
        if t not in m.corpora or kind == "cp -o":
            n.corpora[t] = m.moved(c, t)
    elif kind == "split":
        if not m.readable(step[1]):
            return None
        root, ext = posixpath.splitext(step[1])
        ps = m.moved(step[1], step[1])
        size = max(1, (len(ps) + 1) // 2)
        for i in range(0, len(ps), size):
            j = min(i + size, len(ps))
            n.corpora["%s_%04d-%04d%s" % (root, i + 1, j, ext)] = ps[i:j]
    elif kind == "align":
        if not m.readable(step[1]):
            return None
        ps = list(m.moved(step[1], step[1]))
        if ps:
            p = ps[0]
            al = set(p[4])
            if [x for x in al if x[:2] == ("n1", "n2")]:
                al = set(x for x in al if x[:2] != ("n1", "n2"))
            else:
                # one-to-one
                al = set(x for x in al if x[0] != "n1" and x[1] != "n2") | set([("n1", "n2", E)])
            ps[0] = p[:4] + (frozenset(al), p[5])
        n.corpora[step[1]] = tuple(ps)
    elif kind == "del":
        if not m.readable(step[1]):
            return None
        n.corpora[step[1]] = m.moved(step[1], step[1])[1:]
    elif kind == "abs":
        n.corpora[step[1]] = m.moved(step[1], step[1], absolute=True)
    elif kind == "relax":
        n.corpora[step[1]] = m.moved(step[1], step[1], relax=True)
    elif kind == "add":
        a, b = step[1:]
        if not m.readable(a) or not m.readable(b):
            return None
        n.corpora[a] = m.moved(a, a) + m.moved(b, a)
    elif kind == "join":
        cs = sorted(c for c in m.corpora if posixpath.dirname(c) == step[1])
        if not all(m.readable(c) for c in cs):
            return None
        t = posixpath.join(step[1], "joined.pgc")
        n.corpora[t] = sum((m.moved(c, t) for c in cs), ())
    elif kind == "zip":
        cs = sorted(c for c in m.corpora if posixpath.dirname(c) == step[1])
        banks = sorted(set(b for c in cs for b in m.banks_of(c)))
        if any(b[6:] not in m.banks for b in banks) or len(set(map(posixpath.basename, banks))) < len(banks):
            return None
        for d in (n.banks, n.corpora):
            for k in list(d):
                if k.startswith("Z/"):
                    del d[k]
        for b in banks:
            n.banks["Z/" + posixpath.basename(b)] = m.banks[b[6:]]
        for c in cs:
            n.corpora["Z/" + posixpath.basename(c)] = m.corpora[c]
    elif kind == "chdir":
        d, old, new = step[1:]
        change = lambda r: new + r[len(old):] if r.startswith(old) else r
        for c in m.corpora:
            if posixpath.dirname(c) == d:
                n.corpora[c] = tuple((change(p[0]), p[1], change(p[2])) + p[3:] for p in m.corpora[c])
    elif kind == "mv file":
        n.corpora[step[2]] = n.corpora.pop(step[1])
    elif kind == "mv":
        a, b = step[1:]
        for d in (n.banks, n.corpora):
            for k in list(d):
                if k.startswith(a + "/"):
                    d[b + k[len(a):]] = d.pop(k)
    return n


def act(w, step):
    """the step on the files"""
    kind = step[0]
    path = lambda p: os.path.join(w.root, p)
    if kind in ("cp", "cp -o"):
        c, t = step[1:]
        cwd = posixpath.dirname(c)
        rel = lambda p: posixpath.relpath(p, cwd or ".")
        if kind == "cp -o":
            w.tool(cwd, "pgc_cp.py", "-o", rel(c), rel(t))
        else:
            w.tool(cwd, "pgc_cp.py", rel(c), rel(posixpath.dirname(t) or "."))
    elif kind == "split":
        w.tool(posixpath.dirname(step[1]), "pgc_split.py", posixpath.basename(step[1]))
    elif kind == "align":
        c = w.load(step[1])
        if c:
            nodes = Pair("n1", "n2")
            if c[0].get_align(nodes):
                c[0].del_align(nodes)
            else:
                for al, r in list(c[0].alignments()):
                    if al.source == "n1" or al.target == "n2":
                        c[0].del_align(al)
                c[0].add_align(nodes, E)
        c.write(path(step[1]))
    elif kind == "del":
        c = w.load(step[1])
        del c[:1]
        c.write(path(step[1]))
    elif kind == "abs":
        w.load(step[1], LOAD_NONE).write(path(step[1]), abs_path=True)
    elif kind == "relax":
        w.load(step[1], LOAD_NONE, relax_gb_paths=True).write(path(step[1]))
    elif kind == "add":
        a, b = [w.load(c, LOAD_ALL) for c in step[1:]]
        a += b
        a.purge()
        a.write(path(step[1]))
    elif kind == "join":
        out = w.tool(step[1], "pgc_join.py", "*.pgc")
        fx.write_bytes(path(posixpath.join(step[1], "joined.pgc")), out)
    elif kind == "zip":
        try:
            w.tool(step[1], "pgc_zip.py", path("Z.zip"), "*.pgc")
            if os.path.isdir(path("Z")):
                shutil.rmtree(path("Z"))
            z = zipfile.ZipFile(path("Z.zip"))
            names = z.namelist()
            ok(len(names) == len(set(names)) and all(x.startswith("Z/") for x in names), "names in an archive", names)
            for x in names:
                if not os.path.isdir(os.path.dirname(path(x))):
                    os.makedirs(os.path.dirname(path(x)))
                fx.write_bytes(path(x), z.read(x))
            z.close()
        finally:
            if os.path.exists(path("Z.zip")):
                os.unlink(path("Z.zip"))
    elif kind == "chdir":
        d, old, new = step[1:]
        names = sorted(x for x in os.listdir(path(d)) if x.endswith(".pgc"))
        w.tool(d, "pgc_chdir.py", "-p", old, new, *names)
    elif kind == "mv file":
        os.rename(path(step[1]), path(step[2]))
    elif kind == "mv":
        os.rename(path(step[1]), path(step[2]))


def compare(w, m, files, before, ctx):
    """the files are those of the model"""
    eq(sorted(files), sorted(list(m.banks) + list(m.corpora)), "files", ctx)
    for b, content in m.banks.items():
        ok(files[b] == BANK[content], "a graph bank has been changed", (ctx, b))
    for c, pairs in m.corpora.items():
        if files[c] not in PARSED:
            PARSED[files[c]] = parse(files[c], w.root)
        got, banks = PARSED[files[c]]
        eq(got, pairs, "pairs of a corpus", (ctx, c))
        eq(banks, sorted(set(r for p in pairs for r in (p[0], p[2]))), "graph banks of a corpus", (ctx, c))


def look(w, m, c, ctx):
    """what the library makes of a corpus, in all loading modes"""
    what = (c, fx.read_bytes(os.path.join(w.root, c)), tuple(sorted(m.banks.items())))
    if what in w.seen:
        return
    w.seen.add(what)
    for how in ((LOAD_ALL, LOAD_SPARSE) if len(ctx) < 3 or DEEP[0] else (LOAD_SPARSE,)):
        try:
            corpus = w.load(c, how)
        except Exception, e:
            ok(not m.readable(c), "a corpus can not be read", (ctx, c, repr(e)))
            continue
        ok(m.readable(c), "a corpus without its graphs is read", (ctx, c))
        got = []
        for gp in corpus:
            got.append(([tuple(g.tokens) for g in gp.get_graphs()], frozenset((n.source, n.target, r) for n, r in gp.alignments())))
        want = []
        for p in m.corpora[c]:
            want.append(([CONTENT[m.content(c, r)][g] for r, g in ((p[0], p[1]), (p[2], p[3]))], p[4]))
        eq(got, want, "graphs and alignments of a corpus", (ctx, c, how))


BANK = {}
PARSED = {}
DEEP = [False]


def explore(ck, w, m, files, history, depth, seen):
    """all continuations"""
    for step in steps(m):
        then = history + (step,)
        n, after = transition(ck, w, m, files, then)
        if depth > 1 and n is not None:
            k = n.key()
            if seen.get(k, 0) < depth - 1:
                seen[k] = depth - 1
                explore(ck, w, n, after, then, depth - 1, seen)


def transition(ck, w, m, files, then):
    w.put(files)
    want = expect(m, then[-1])
    refused = None
    try:
        act(w, then[-1])
    except Mismatch:
        raise
    except Exception, e:
        refused = e
    after = w.get()
    ck.step()
    if want is None:
        ok(refused is not None, "a step has to be refused", (then,))
        eq(sorted(after), sorted(files), "files after a step which is refused", (then,))
        for f in files:
            ok(after[f] == files[f], "a step which is refused changes a file", (then, f))
        return None, None
    ok(refused is None, "a step fails", (then, repr(refused)))
    compare(w, want, after, files, then)
    for c in want.corpora:
        if after[c] != files.get(c) or then[-1][0] in ("mv", "mv file"):
            look(w, want, c, then)
    ck.state(want.key())
    ck.outcome((then[-1][0], want.key()))
    return want, after


def run(ck):
    warnings.simplefilter("ignore")
    for k in CONTENT:
        BANK[k] = bank_text(k)
    root = os.path.realpath(ck.tmpdir())
    w = World(root)
    m = initial()
    files = dict((b, BANK[c]) for b, c in m.banks.items())
    files.update((c, corpus_text(p)) for c, p in m.corpora.items())
    depth = 3 if ck.quick else 4
    DEEP[0] = not ck.quick
    ck.bounds["steps"] = ("all sequences of up to %d steps (copy, overwrite, join, split, pack, change paths, edit, delete, "
                          "add, write absolute or relaxed paths, move files and directories) on two corpora and three graph banks" % depth)
    # states are explored from the first history which reaches them
    reached = set([m.key()])
    todo = []
    for s in steps(m):
        todo.append((s,))
    for s in steps(m):
        n = expect(m, s)
        if n is not None and not n.key() in reached:
            reached.add(n.key())
            todo += [(s, t) for t in steps(n)]
    seen = {}
    for steps_ in todo:
        n = m
        for s in steps_:
            n = expect(n, s)
        new = len(steps_) == 2 and n is not None and n.key() not in reached
        if new:
            reached.add(n.key())
        key = ("steps",) + steps_
        if not ck.want(key):
            continue
        with ck.case(key, steps_[-1][0]):
            o, last = m, files
            if ck.replay_key is not None:
                w.seen = set()
            for i in range(len(steps_)):
                o, last = transition(ck, w, o, last, steps_[:i + 1])
            if new:
                explore(ck, w, o, last, steps_, depth - 2, {} if ck.replay_key is not None else seen)
