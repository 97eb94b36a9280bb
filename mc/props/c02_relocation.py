# -*- coding: utf-8 -*-
"""
Graph bank references: all combinations of where banks live, where and how the
corpus file is named, path mode, working directory and relocation step, in a
small real directory tree with directory links.
"""
import cStringIO
import itertools
import os
import shutil
import xml.etree.cElementTree as et

from daeso.exception import DaesoError
from daeso.gb.graphbank import GraphBank
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL, LOAD_SPARSE, LOAD_NONE
from daeso.pgc.graphpair import GraphPair
from mc.core import eq, ok, raises, Mismatch
from mc import fx, script

#            path of the bank, relative to the world's root
BANKS = ["gb0.xml", "a/gb1.xml", "a/deep/gb2.xml", "b/gb3.xml", u"b/b\xe4nk & <4>.xml", "a/a/gb5.xml", "a.b/gb6.xml"]
DIRS = ["a/deep", "b", "a/a", "a.b", "out"]
# directory where the corpus is written (through which name)
OUTDIRS = [".", "a", "a/deep", "b", "out", "la", "out/lroot/b"]


class World(object):

    def __init__(self, ck):
        self.ck = ck
        self.top = ck.tmpdir()
        self.root = os.path.join(self.top, "world")
        self.fresh()

    def fresh(self):
        if os.path.exists(self.root):
            shutil.rmtree(self.root)
        os.mkdir(self.root)
        for d in DIRS:
            if not os.path.isdir(os.path.join(self.root, d)):
                os.makedirs(os.path.join(self.root, d))
        os.symlink(os.path.join(self.root, "a", "deep"), os.path.join(self.root, "la"))
        os.symlink(self.root, os.path.join(self.root, "out", "lroot"))
        for i, b in enumerate(BANKS):
            fx.write_bank(os.path.join(self.root, b), [fx.small_graph("g", ["bank%d" % i]),
                                                       fx.small_graph("h", ["bank%d" % i, "h"])])

    def at(self, *p):
        return os.path.join(self.root, *p)

    def corpus(self, bi):
        """one pair per two banks"""
        banks = [GraphBank(self.at(BANKS[i]), "graphml") for i in bi]
        gps = []
        for k in range(0, len(banks), 2):
            graphs = Pair(fx.small_graph("g", ["bank%d" % bi[k]]).build(),
                          fx.small_graph("h", ["bank%d" % bi[k + 1], "h"]).build())
            gp = GraphPair(Pair(banks[k], banks[k + 1]), graphs)
            gp.add_align(Pair("n0", "n1"), "equals")
            gps.append(gp)
        return ParallelGraphCorpus(gps, ["equals"], fx.elem("corpus_meta_data", None, [fx.elem("file", "gb0.xml")]))


def bank_paths(c):
    return [b.get_file_path() for gp in c for b in gp.get_banks()]


def judge(w, c, bi, root, ctx, mode=LOAD_NONE):
    eq(map(os.path.realpath, bank_paths(c)), [os.path.realpath(os.path.join(root, BANKS[i])) for i in bi],
       "graph pairs refer to other bank files", ctx)
    if mode != LOAD_NONE:
        eq([g.tokens[0] for gp in c for g in gp.get_graphs()], ["bank%d" % i for i in bi],
           "graphs come from other banks", ctx)


def name_as(path, how, cwd):
    """one file, several names"""
    if how == "absolute":
        return path
    rel = os.path.relpath(os.path.realpath(os.path.dirname(path)), os.path.realpath(cwd))
    base = os.path.basename(path)
    if how == "dotted":
        return os.path.join(".", rel, base)
    if rel == ".":
        return base
    return os.path.join(rel, base)


def load(w, name, how, mode, **opts):
    c = ParallelGraphCorpus()
    if how == "filelike":
        # without a name: belongs to the current directory
        c.read(cStringIO.StringIO(fx.read_bytes(name)), mode, **opts)
    elif how == "file":
        f = open(name, "rb")
        try:
            c.read(f, mode, **opts)
        finally:
            f.close()
    else:
        c.read(name, mode, **opts)
    return c


def run(ck):
    w = World(ck)
    home = os.getcwd()
    try:
        explore(ck, w)
    finally:
        os.chdir(home)


def explore(ck, w):
    bis = [(0, 1), (2, 3), (4, 0), (5, 6), (1, 2, 1, 3), (3, 3)]
    cwds = [".", "a", "b", "la", "out/lroot/a"]
    if ck.quick:
        cwds = [".", "a", "la"]
    names = ["absolute", "relative", "dotted"]
    ck.bounds["write and read"] = "%d bank sets x %d output dirs x %d names x %d dirs x modes" % (
        len(bis), len(OUTDIRS), len(names), len(cwds))

    # 1. write somewhere, read from somewhere
    for bi in bis:
        for od in OUTDIRS:
            for wn in names + ["file", "filelike"]:
                for cwd in cwds:
                    for abs_path in (False, True):
                        key = ("write", bi, od, wn, cwd, abs_path)
                        if not ck.want(key):
                            continue
                        with ck.case(key, "write and read"):
                            os.chdir(w.at(cwd))
                            path = w.at(od, "c.pgc")
                            c = w.corpus(bi)
                            if wn == "file":
                                f = open(name_as(path, "relative", w.at(cwd)), "wb")
                                c.write(f, abs_path=abs_path)
                                f.close()
                            elif wn == "filelike":
                                os.chdir(w.at(od))
                                f = cStringIO.StringIO()
                                c.write(f, abs_path=abs_path)
                                fx.write_bytes(path, f.getvalue())
                                got = load(w, path, "filelike", LOAD_SPARSE)
                                judge(w, got, bi, w.root, (key, "filelike"), LOAD_SPARSE)
                            else:
                                c.write(name_as(path, wn, w.at(cwd)), abs_path=abs_path)
                            ck.step()
                            for x in et.parse(path).getroot().find("graphbanks"):
                                eq(os.path.isabs(x.text), abs_path, "kind of path written", key)
                            ck.state((od, abs_path, fx.read_bytes(path)))
                            for cwd2 in cwds:
                                os.chdir(w.at(cwd2))
                                for rn, how, mode in (("absolute", "name", LOAD_SPARSE), ("relative", "name", LOAD_NONE),
                                                      ("dotted", "name", LOAD_ALL), ("relative", "file", LOAD_SPARSE)):
                                    got = load(w, name_as(path, rn, w.at(cwd2)), how, mode)
                                    ck.step()
                                    judge(w, got, bi, w.root, (key, cwd2, rn, how), mode)
                                    ck.outcome(bank_paths(got))
                            # save the corpus that was read elsewhere again
                            got.write(w.at("out", "d.pgc"), abs_path=abs_path)
                            judge(w, load(w, w.at("out", "d.pgc"), "name", LOAD_NONE), bi, w.root, (key, "resaved"))
                            os.unlink(path)

    # 2. moving corpus and banks together
    for bi in bis:
        for od in (".", "a", "b", "out"):
            for abs_path in (False, True):
                key = ("move", bi, od, abs_path)
                if not ck.want(key):
                    continue
                with ck.case(key, "move together"):
                    w.fresh()
                    os.chdir(w.top)
                    w.corpus(bi).write(w.at(od, "c.pgc"), abs_path=abs_path)
                    moved = os.path.join(w.top, "elsewhere", "moved")
                    if os.path.exists(os.path.dirname(moved)):
                        shutil.rmtree(os.path.dirname(moved))
                    os.makedirs(os.path.dirname(moved))
                    os.rename(w.root, moved)
                    new = os.path.join(moved, od, "c.pgc")
                    ck.step(2)
                    if abs_path:
                        got = load(w, new, "name", LOAD_NONE)
                        eq(bank_paths(got), [w.at(BANKS[i]) for i in bi], "absolute paths must not move", key)
                        raises(DaesoError, lambda: load(w, new, "name", LOAD_SPARSE), "missing banks unnoticed", key)
                    else:
                        got = load(w, new, "name", LOAD_SPARSE)
                        judge(w, got, bi, moved, key, LOAD_SPARSE)
                        ck.outcome(bank_paths(got))
                    shutil.rmtree(moved)
                    os.mkdir(w.root)
                    w.fresh()
                    ck.state(key)

    # 3. relaxed bank paths: recorded file and sibling exist or not
    for bi in ((0, 1), (3, 2), (1, 1)):
        for od in (".", "out"):
            for abs_path in (False, True):
                for present in itertools.product((0, 1), repeat=2):
                    for sibling in itertools.product((0, 1), repeat=2):
                        for relax in (False, True):
                            for rn in ("absolute", "relative", "file"):
                                key = ("relax", bi, od, abs_path, present, sibling, relax, rn)
                                if not ck.want(key):
                                    continue
                                with ck.case(key, "relaxed paths"):
                                    w.fresh()
                                    os.chdir(w.at("b"))
                                    path = w.at(od, "c.pgc")
                                    w.corpus(bi).write(path, abs_path=abs_path)
                                    sib = [os.path.normpath(w.at(od, os.path.basename(BANKS[i]))) for i in bi]
                                    rec = [w.at(BANKS[i]) for i in bi]
                                    for k in (0, 1):
                                        if sibling[k] and sib[k] != rec[k]:
                                            fx.write_bank(sib[k], [fx.small_graph("g", ["sib%d" % bi[k]]),
                                                                   fx.small_graph("h", ["sib%d" % bi[k], "h"])])
                                    for k in (0, 1):
                                        if not present[k] and os.path.exists(rec[k]):
                                            os.unlink(rec[k])
                                    want = [rec[k] if os.path.exists(rec[k]) or not relax else sib[k] for k in (0, 1)]
                                    words = ["bank%d" % bi[k] if want[k] == rec[k] else "sib%d" % bi[k] for k in (0, 1)]
                                    name = name_as(path, "absolute" if rn == "absolute" else "relative", w.at("b"))
                                    how = "file" if rn == "file" else "name"
                                    got = load(w, name, how, LOAD_NONE, relax_gb_paths=relax)
                                    eq(map(os.path.realpath, bank_paths(got)), map(os.path.realpath, want),
                                       "bank file chosen", key)
                                    ck.step(2)
                                    if all(map(os.path.exists, want)):
                                        for mode in (LOAD_SPARSE, LOAD_ALL):
                                            got = load(w, name, how, mode, relax_gb_paths=relax)
                                            eq([g.tokens[0] for gp in got for g in gp.get_graphs()], words,
                                               "graphs come from other banks", key)
                                    else:
                                        raises(DaesoError, lambda: load(w, name, how, LOAD_SPARSE, relax_gb_paths=relax),
                                               "missing bank unnoticed", key)
                                    ck.state((key, words))
                                    ck.outcome(words)
    w.fresh()

    # 4. the copy tool
    for src_dirs in ((".",), ("a",), ("la",), (".", "a"), ("b", "out")):
        for target in ("dir", "file", "newdirfile", "linkdir", "existing", "existing-o", "self"):
            for cwd in (".", "b"):
                for abs_path in (False, True):
                    key = ("pgc_cp", src_dirs, target, cwd, abs_path)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "copy tool"):
                        w.fresh()
                        os.chdir(w.at(cwd))
                        srcs, contents = [], []
                        for n, sd in enumerate(src_dirs):
                            p = w.at(sd, "src%d.pgc" % n)
                            w.corpus(bis[n + 1]).write(p, abs_path=abs_path)
                            srcs.append(p)
                            contents.append(fx.read_bytes(p))
                        args = [name_as(p, "relative", w.at(cwd)) for p in srcs]
                        dest = None
                        if target == "dir":
                            args.append(w.at("a/a"))
                            dest = [w.at("a/a", os.path.basename(p)) for p in srcs]
                        elif target == "linkdir":
                            args.append(name_as(w.at("out/lroot"), "relative", w.at(cwd)))
                            dest = [w.at("out/lroot", os.path.basename(p)) for p in srcs]
                        elif target == "file":
                            args.append(name_as(w.at("a/copy.pgc"), "relative", w.at(cwd)))
                            dest = [w.at("a/copy.pgc")]
                        elif target == "newdirfile":
                            args.append(w.at("a/deep/copy.pgc"))
                            dest = [w.at("a/deep/copy.pgc")]
                        elif target.startswith("existing"):
                            fx.write_bytes(w.at("out/copy.pgc"), "precious")
                            args.append(w.at("out/copy.pgc"))
                            dest = [w.at("out/copy.pgc")]
                            if target == "existing-o":
                                args.insert(0, "-o")
                        elif target == "self":
                            args = args[:1] + [srcs[0], "-o"]
                            dest = [srcs[0]]
                        rc, so, se = script.run("pgc_cp.py", args)
                        ck.step()
                        for p, t in zip(srcs, contents):
                            eq(fx.read_bytes(p), t if os.path.realpath(p) not in map(os.path.realpath, dest[1:]) else t,
                               "copying changed the source", key)
                        if len(srcs) > 1 and target not in ("dir", "linkdir", "self"):
                            ok(rc != 0, "several sources for one target file", key)
                            if target.startswith("existing"):
                                eq(fx.read_bytes(dest[0]), "precious", "existing file overwritten", key)
                            else:
                                ok(not os.path.exists(dest[0]), "target written", key)
                            continue
                        eq(rc, 0, "exit status of the copy tool", (key, se))
                        if target == "existing":
                            eq(fx.read_bytes(dest[0]), "precious", "existing file overwritten", key)
                            continue
                        for n, p in enumerate(dest):
                            if target == "self":
                                continue
                            if p == srcs[n] or os.path.realpath(p) == os.path.realpath(srcs[n]):
                                continue
                            got = load(w, p, "name", LOAD_SPARSE)
                            judge(w, got, bis[n + 1], w.root, (key, p), LOAD_SPARSE)
                            ref = load(w, srcs[n], "name", LOAD_NONE)
                            ok(got == ref, "copy is not equal to its source", key)
                        ck.state((key, [fx.read_bytes(p) for p in dest]))
                        ck.outcome([fx.read_bytes(p) for p in dest])

    # 5. the directory change tool
    texts = ["../gb/a.xml", "../gb/sub/b.xml", "../other/a.xml", "gb/a.xml", "/abs/gb/a.xml", u"../gb/\xe9 & b.xml", "a/../gb/c.xml"]
    prefixes = [("../gb", "../../new"), ("../gb/", ""), ("/abs", "/else/where"), ("", "pre/"), ("nothing", "x"),
                ("gb", "../gb"), ("../gb/sub", "."), (u"../gb/\xe9 & ", "z")]
    for pi, (p, q) in enumerate(prefixes):
        for k in range(1, 4):
            for ti in itertools.combinations(range(len(texts)), k):
                for flags in ((), ("-V",), ("-t",)):
                    if flags and k != 2:
                        continue
                    key = ("pgc_chdir", pi, ti, flags)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "directory change tool"):
                        def doc(ts):
                            root = et.Element("parallel_graph_corpus")
                            m = et.SubElement(root, "corpus_meta_data")
                            et.SubElement(m, "file").text = "../gb/a.xml"
                            et.SubElement(m, "note", file="../gb/a.xml").text = "../gb/a.xml"
                            g = et.SubElement(root, "graphbanks")
                            for n, t in enumerate(ts):
                                et.SubElement(g, "file", id=str(n), format="graphml").text = t
                            et.SubElement(et.SubElement(root, "node_relations"), "relation").text = "../gb/r"
                            a = et.SubElement(root, "aligned_graphs")
                            gp = et.SubElement(a, "graph_pair", n="1", from_bank_id="0", to_bank_id="0",
                                               from_graph_id="../gb/a", to_graph_id="g2")
                            gm = et.SubElement(gp, "graph_meta_data")
                            et.SubElement(gm, "file").text = "../gb/a.xml"
                            return root
                        fns = []
                        for n in (0, 1):
                            fns.append(w.at("c%d.pgc" % n))
                            fx.write_bytes(fns[-1], et.tostring(doc([texts[i] for i in ti] if n == 0 else texts), "utf-8"))
                        old = map(fx.read_bytes, fns)
                        rc, so, se = script.run("pgc_chdir.py", list(flags) + ["-p", p, q] + fns)
                        eq(rc, 0, "exit status", (key, se))
                        ck.step()
                        if "-t" in flags:
                            eq(map(fx.read_bytes, fns), old, "dry run changed a file", key)
                            continue
                        for n, fn in enumerate(fns):
                            ts = [texts[i] for i in ti] if n == 0 else texts
                            want = doc([q + t[len(p):] if t.startswith(p) else t for t in ts])
                            eq(fx.elem_value(et.parse(fn).getroot()), fx.elem_value(want), "corpus after change of directory", key)
                        ck.state((key, map(fx.read_bytes, fns)))
                        ck.outcome(map(fx.read_bytes, fns))
