# -*- coding: utf-8 -*-
"""
Bank identity: purge() and the list of banks in written corpora, for every
assignment of bank objects to the sides of up to three (four) graph pairs.
"""
import itertools
import os
import xml.etree.cElementTree as et

from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.graphpair import GraphPair
from mc.core import eq, ok, Mismatch
from mc import fx


class World(object):

    def __init__(self, ck):
        d = self.dir = ck.tmpdir()
        os.mkdir(os.path.join(d, "sub"))
        for f in ("f1.xml", "f2.xml", os.path.join("sub", "f1.xml")):
            fx.write_bytes(os.path.join(d, f), "<graphml/>")
        os.symlink(os.path.join(d, "f1.xml"), os.path.join(d, "link.xml"))
        os.link(os.path.join(d, "f1.xml"), os.path.join(d, "hard.xml"))
        # kind -> (path, file identity)
        self.kinds = {
            "A": (os.path.join(d, "f1.xml"), "f1"),
            "A'": (os.path.join(d, "f1.xml"), "f1"),
            "L": (os.path.join(d, "link.xml"), "f1"),
            "H": (os.path.join(d, "hard.xml"), "f1"),
            "D": (os.path.join(d, "sub", "..", "f1.xml"), "f1"),
            "B": (os.path.join(d, "f2.xml"), "f2"),
            "B'": (os.path.join(d, "f2.xml"), "f2"),
            "S": (os.path.join(d, "sub", "f1.xml"), "sub/f1"),
            "M": (os.path.join(d, "m1.xml"), "m1"),
            "M'": (os.path.join(d, "m1.xml"), "m1"),
            "N": (os.path.join(d, "m2.xml"), "m2"),
        }

    def build(self, slots):
        """one object per kind: repeated kinds share the object"""
        banks = dict((k, GraphBank(self.kinds[k][0], "graphml")) for k in set(slots))
        gps = []
        for i in range(0, len(slots), 2):
            gp = GraphPair(Pair(banks[slots[i]], banks[slots[i + 1]]),
                           Pair(DaesoGraph(id="s%d" % i), DaesoGraph(id="t%d" % i)))
            if i % 4 == 2:
                gp.add_align(Pair("n0", "n1"), "equals")
            gps.append(gp)
        return ParallelGraphCorpus(gps, ["equals"]), banks

    def ident(self, path):
        """identity of the file a path denotes"""
        real = os.path.realpath(path)
        for k, (p, f) in sorted(self.kinds.items()):
            if os.path.realpath(p) == real:
                return f
        return "unknown file " + path


def sides(c):
    return [b for gp in c for b in gp.get_banks()]


def check_same_files(w, c, slots, ctx):
    eq([w.ident(b.get_file_path()) for b in sides(c)], [w.kinds[k][1] for k in slots],
       "graph pairs refer to other bank files", ctx)


def check_single(w, c, ctx):
    table = {}
    for b in sides(c):
        f = w.ident(b.get_file_path())
        if table.setdefault(f, b) is not b:
            raise Mismatch("two bank objects for one file after purging", "%r %s" % (ctx, f))


def check_written(w, c, slots, ctx):
    for abs_path in (False, True):
        out = os.path.join(w.dir, "sub" if abs_path else ".", "out.pgc")
        before = map(id, sides(c))
        c.write(out, abs_path=abs_path)
        eq(map(id, sides(c)), before, "writing changed the banks of the corpus", ctx)
        root = et.parse(out).getroot()
        ids, fileset = {}, []
        for f in root.find("graphbanks"):
            p = f.text.strip()
            if not os.path.isabs(p):
                ok(not abs_path, "relative path written", ctx)
                p = os.path.join(os.path.dirname(out), p)
            i = w.ident(p)
            ok(f.get("id") not in ids, "bank id is not unique", ctx)
            ids[f.get("id")] = i
            fileset.append(i)
        eq(sorted(fileset), sorted(set(w.kinds[k][1] for k in slots)), "bank files listed", ctx)
        got = []
        for gp in root.find("aligned_graphs"):
            got += [ids.get(gp.get("from_bank_id")), ids.get(gp.get("to_bank_id"))]
        eq(got, [w.kinds[k][1] for k in slots], "bank files referred to in the written corpus", ctx)


def run(ck):
    w = World(ck)
    kinds = sorted(w.kinds)
    spaces = [((), kinds)]
    slotlists = list(itertools.product(kinds, repeat=2))
    four = kinds if not ck.quick else ["A", "A'", "H", "B", "S", "M", "M'"]
    slotlists += list(itertools.product(four, repeat=4))
    six = ["A", "L", "B", "M"] if ck.quick else ["A", "A'", "H", "B", "B'", "M"]
    slotlists += [s for s in itertools.product(six, repeat=6) if not ck.quick or s[0] in "AM"]
    slotlists.append(())
    ck.bounds["assignments of bank objects"] = len(slotlists)
    for slots in slotlists:
        key = tuple(slots)
        if not ck.want(key):
            continue
        with ck.case(key, "%d pairs" % (len(slots) // 2)):
            # purge one pair
            for n in range(len(slots) // 2):
                c, banks = w.build(slots)
                before = sides(c)
                c.purge(c[n])
                ck.step()
                check_same_files(w, c, slots, (key, "purge pair", n))
                for i, (x, y) in enumerate(zip(before, sides(c))):
                    if i // 2 != n:
                        ok(x is y, "purging one pair changed another", (key, n))
                s, t = c[n].get_banks()
                if w.kinds[slots[2 * n]][1] == w.kinds[slots[2 * n + 1]][1]:
                    ok(s is t, "two bank objects for one file in a purged pair", (key, n))
            # purge all, purge again, write
            c, banks = w.build(slots)
            aligned = [fx.aligned(g) for g in c]
            check_written(w, c, slots, (key, "write"))
            check_same_files(w, c, slots, (key, "written"))
            c.purge()
            ck.step(2)
            check_same_files(w, c, slots, (key, "purge"))
            check_single(w, c, key)
            ok(set(map(id, sides(c))) <= set(map(id, banks.values())), "purging made new banks", key)
            eq([fx.aligned(g) for g in c], aligned, "purging changed alignments", key)
            once = map(id, sides(c))
            c.purge()
            eq(map(id, sides(c)), once, "purging twice is not the same as once", key)
            check_written(w, c, slots, (key, "purge, write"))
            ck.step(2)
            # grow by concatenation, then purge
            d, _ = w.build(slots)
            c += d
            c.append(d[0]) if len(d) else None
            s2 = tuple(slots) * 2 + tuple(slots[:2])
            check_written(w, c, s2, (key, "concatenate, write"))
            c.purge()
            check_same_files(w, c, s2, (key, "concatenate, purge"))
            check_single(w, c, (key, "concatenate, purge"))
            ck.step(4)
            ck.state((key, [w.ident(b.get_file_path()) for b in sides(c)]))
            ck.outcome([sides(c).index(b) for b in sides(c)])
