# -*- coding: utf-8 -*-
"""C14: statistics of corpora and graph banks, and their tables"""

import itertools
import os
import string

from daeso.gb.gbstats import gb_stats, GbStatsTable
from daeso.pgc.pgcstats import pgc_stats, PgcStatsTable
from daeso.stats.table import StatsTable
from daeso.stats.corpus import corpus_seg_stats

from mc import fx, script
from mc.core import eq, ok, close
from mc.props import c14_format

REL = dict(EQ="equals", RE="restates", GEN="generalizes", SPEC="specifies", INT="intersects")
EMPTY = c14_format.EMPTY

SRC = [fx.GSpec("s1", ["a", "b", "."], [("0", "top", ["a", "b", "."]), ("1", "w", ["a"]), ("2", "w", ["b"]),
                                         ("3", "p", ["."]), ("4", "e", [EMPTY])],
                [("0", "1"), ("0", "2"), ("0", "3"), ("0", "4")], root="0"),
       fx.GSpec("s2", ["c", ",", "?"], [("0", "top", ["c"]), ("1", "p", [",", "?"]), ("3", "p", ["?"]), ("4", "e", [EMPTY])],
                [("0", "1"), ("1", "3"), ("0", "4")], root="0"),
       fx.GSpec("bad3", ["d"], [("0", "top", ["d"]), ("1", "w", ["d"]), ("3", "w", ["d"]), ("4", "e", [EMPTY])],
                [("0", "1"), ("0", "3"), ("0", "4")], root="0")]
TRG = [fx.GSpec("t1", ["x", "y"], [("0", "top", ["x", "y"]), ("1", "w", ["x"]), ("3", "p", ["!"]), ("4", "w", ["y"])],
                [("0", "1"), ("0", "4"), ("0", "3")], root="0"),
       fx.GSpec("bad2", [";", "z"], [("0", "top", [";", "z"]), ("1", "p", [";"]), ("3", "p", [";"]), ("4", "e", [EMPTY])],
                [("0", "1"), ("0", "4"), ("0", "3")], root="0")]
GRAPHS = dict((g.id, g) for g in SRC + TRG)
PAIRS = [("s1", "t1"), ("s1", "bad2"), ("s2", "t1"), ("bad3", "t1"), ("s2", "bad2"), ("s1", "s2")]
ALIGNS = [(), (("0", "0", "equals"),), (("0", "0", "restates"), ("1", "1", "generalizes")),
          (("3", "3", "intersects"), ("1", "1", "specifies")),
          (("0", "0", "equals"), ("4", "4", "equals"), ("3", "3", "specifies"), ("1", "1", "intersects"))]
OPTS = ("with_empty_nodes", "with_failed_parses", "with_punc", "with_unaligned_roots", "with_unaligned_graphs")


def punct(toks):
    return bool(toks) and all(t in string.punctuation for t in toks)


def tokens(g, n):
    for i, label, toks in GRAPHS[g].nodes:
        if i == n:
            return [] if toks == [EMPTY] else toks


def counted(g, n, o):
    t = tokens(g, n)
    return (t or o["with_empty_nodes"]) and (not punct(t) or o["with_punc"])


def pct(a, b):
    return 100.0 * a / b if b else 0.0


def failed(g):
    return g.startswith("bad")


def pgc_required(name, pairs, o):
    """row of the corpus; for the banks: uses of graphs, graphs with
    unaligned roots, aligned nodes"""
    r = dict.fromkeys("CGP CGPFU CGPFP CGPUR CNP CEQ CRE CGEN CSPEC CINT".split(), 0)
    uses, unrooted, nodes = [], set(), set()
    for s, t, al in pairs:
        bad = failed(s) or failed(t)
        loose = not [1 for a, b, rel in al if a == "0" and b == "0"]
        if bad and not o["with_failed_parses"] or loose and not o["with_unaligned_roots"]:
            continue
        r["CGP"] += 1
        r["CGPFP"] += bad
        r["CGPUR"] += loose
        r["CGPFU"] += not (bad or loose)
        uses += [s, t]
        if loose:
            unrooted |= set([s, t])
        for a, b, rel in al:
            if counted(s, a, o) and counted(t, b, o):
                r["CNP"] += 1
                for k in REL:
                    r["C" + k] += REL[k] == rel
                nodes |= set([(s, a), (t, b)])
    for k in "FP", "UR", "FU":
        r["PGP" + k] = pct(r["CGP" + k], r["CGP"])
    for k in REL:
        r["P" + k] = pct(r["C" + k], r["CNP"])
    r["CORPUS"] = name
    return r, uses, unrooted, nodes


def gb_row(name, specs, o, uses=(), unrooted=(), nodes=()):
    r = dict.fromkeys("CG CGA CGU CGSA CGMA CGUR CGFP CT CN CNA CNU".split(), 0)
    for g in specs:
        if failed(g.id) and not o["with_failed_parses"]:
            continue
        n = list(uses).count(g.id)
        if not n and not o["with_unaligned_graphs"]:
            continue
        r["CG"] += 1
        r["CGA"] += n > 0
        r["CGU"] += n == 0
        r["CGSA"] += n == 1
        r["CGMA"] += n > 1
        r["CGUR"] += g.id in unrooted
        r["CGFP"] += failed(g.id)
        r["CT"] += len([t for t in g.tokens if o["with_punc"] or not punct([t])])
        for i, label, toks in g.nodes:
            if counted(g.id, i, o):
                r["CN"] += 1
                r["CNA"] += (g.id, i) in nodes
                r["CNU"] += (g.id, i) not in nodes
    percents_gb(r)
    r["BANK"] = name
    return r


def percents_gb(r):
    for a, b, c in (("PGA", "CGA", "CG"), ("PGFP", "CGFP", "CG"), ("PGUR", "CGUR", "CG"),
                    ("PGSA", "CGSA", "CGA"), ("PGMA", "CGMA", "CGA"), ("PNA", "CNA", "CN")):
        r[a] = pct(r[b], r[c])
    r["ATG"] = r["CT"] / float(r["CG"]) if r["CG"] else 0.0
    r["ANG"] = r["CN"] / float(r["CG"]) if r["CG"] else 0.0


def rows_of(table):
    cols = table.keys()
    n = set(len(table[c]) for c in cols)
    ok(len(n) == 1, "columns of a table differ in length", n)
    return [dict((c, table[c][i]) for c in cols) for i in range(n.pop())]


def judge_table(table, want, namecol, ctx, overall=True, tol=1e-9, order=True):
    got = rows_of(table)
    eq(len(got), len(want), "number of rows", ctx)
    if not order:
        k = lambda r: (r[namecol], sorted((c, v) for c, v in r.items() if c[0] == "C" and c != namecol))
        got, want = sorted(got, key=k), sorted(want, key=k)
    for g, w in zip(got, want):
        judge_row(g, w, ctx, tol)
    if overall:
        judge_row(dict((c, table[c].overall) for c in table.keys() if c != namecol),
                  overall_of(want, namecol), ctx, tol)


def judge_row(g, w, ctx, tol=1e-9):
    eq(sorted(g), sorted(w), "columns", ctx)
    for c in sorted(w):
        if isinstance(w[c], float):
            if w[c] == 0.0 and g[c] is None:
                continue         # no percentage of nothing
            ok(g[c] is not None and abs(g[c] - w[c]) <= tol, "value in column " + c, (ctx, g[c], w[c]))
        else:
            eq(g[c], w[c], "value in column " + c, ctx)


def overall_of(rows, namecol):
    names = COLS[namecol]
    o = dict((c, sum(r[c] for r in rows)) for c in names if c[0] == "C")
    if namecol == "BANK":
        percents_gb(o)
    else:
        for k in "FP", "UR", "FU":
            o["PGP" + k] = pct(o["CGP" + k], o["CGP"])
        for k in REL:
            o["P" + k] = pct(o["C" + k], o["CNP"])
    return o


COLS = dict(
    CORPUS="CGP CGPFU CGPFP CGPUR PGPFU PGPFP PGPUR CNP CEQ CRE CGEN CSPEC CINT PEQ PRE PGEN PSPEC PINT".split(),
    BANK="CG CGA CGU CGSA CGMA CGUR CGFP PGA PGSA PGMA PGUR PGFP CT ATG CN ANG CNA CNU PNA".split())


def write_corpus(path, pairs, format="c14"):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<parallel_graph_corpus><graphbanks>']
    d = os.path.dirname(path)
    banks = dict([(g.id, "1") for g in SRC] + [(g.id, "2") for g in TRG])
    for k, f in (("1", "src bank.gml"), ("2", "trg.gml")):
        out.append('<file id="%s" format="%s">%s</file>' % (k, format, f))
    out.append("</graphbanks><aligned_graphs>")
    for s, t, al in pairs:
        out.append('<graph_pair from_bank_id="%s" from_graph_id="%s" to_bank_id="%s" to_graph_id="%s">' % (banks[s], s, banks[t], t))
        for a, b, r in al:
            out.append('<node_pair from_node_id="%s" to_node_id="%s" relation="%s"/>' % (a, b, r))
        out.append("</graph_pair>")
    out.append("</aligned_graphs></parallel_graph_corpus>\n")
    return fx.write_bytes(path, "\n".join(out))


def all_required(named, o):
    """rows of both tables for [(file name, pairs)]"""
    prow, grow = [], []
    for name, pairs in named:
        r, uses, unrooted, nodes = pgc_required(name, pairs, o)
        prow.append(r)
        used = set(x for s, t, al in pairs for x in (s, t))
        if used & set(g.id for g in SRC):
            grow.append(gb_row("src bank.gml", SRC, o, uses, unrooted, nodes))
        if used & set(g.id for g in TRG):
            grow.append(gb_row("trg.gml", TRG, o, uses, unrooted, nodes))
    return prow, grow


# -- tables as text -----------------------------------------------------------

def parse_text(text):
    """printed tables: [(labels, rows as lists of cells, summary cells)]"""
    out = []
    ls = text.split("\n")
    i = 0
    while i < len(ls):
        if ls[i].startswith("----"):
            labels = ls[i - 1].split()
            j = i + 1
            rows = []
            while not ls[j].startswith("----"):
                rows.append(ls[j].rsplit(None, len(labels) - 1))
                j += 1
            out.append((labels, rows, ls[j + 1].split()))
            i = j
        i += 1
    return out


def judge_text(text, prow, grow, ctx):
    tabs = parse_text(text)
    want = [(n, w) for n, w in (("CORPUS", prow), ("BANK", grow)) if w is not None]
    eq(len(tabs), len(want), "number of tables printed", ctx)
    for (labels, rows, summ), (namecol, w) in zip(tabs, want):
        eq(sorted(labels), sorted([namecol] + COLS[namecol]), "columns printed", ctx)
        got = []
        for r in rows:
            eq(len(r), len(labels), "cells in a printed row", (ctx, r))
            d = dict(zip(labels, r))
            got.append(dict((c, v if c == namecol else int(v) if c[0] == "C" else float(v)) for c, v in d.items()))
        k = lambda r: (r[namecol], sorted((c, v) for c, v in r.items() if c[0] == "C" and c != namecol))
        eq(len(got), len(w), "printed rows", ctx)
        for a, b in zip(sorted(got, key=k), sorted(w, key=k)):
            judge_row(a, b, ctx, 0.0051)
        over = overall_of(w, namecol)
        # counts are always summed; percentages of nothing are left out
        cells = [c for c in labels if c != namecol]
        if len(summ) == len(cells):
            judge_row(dict((c, int(v) if c[0] == "C" else float(v)) for c, v in zip(cells, summ)), over, ctx, 0.0051)
        else:
            cells = [c for c in cells if c[0] == "C"]
            eq([int(x) for x in summ if "." not in x], [over[c] for c in cells], "printed summary", ctx)


class SmallTable(StatsTable):
    columns_def = """
    NAME    string   name of it
    N       count    a count
    P       percent  a percentage
    A       average  an average
    M       count    another count
    """


def run(ck):
    c14_format.install()
    d = ck.tmpdir()
    fx.write_bank(d + "/src bank.gml", SRC)
    fx.write_bank(d + "/trg.gml", TRG)
    catalog = [(s, t, al) for s, t in PAIRS for al in ALIGNS]
    allopts = [dict(zip(OPTS, bits)) for bits in itertools.product((False, True), repeat=5)]
    ck.bounds["graph pairs"] = "%d (pair of graphs, alignment) combinations" % len(catalog)

    # 1. all corpora of at most two graph pairs
    n = 0
    files = []
    corpora = [[]] + [[p] for p in catalog] + [[p, q] for p, q in itertools.product(catalog, repeat=2)]
    for ci, pairs in enumerate(corpora):
        n += 1
        key = ("corpus", ci)
        if not ck.want(key):
            continue
        with ck.case(key, "corpora of at most two graph pairs"):
            f = write_corpus("%s/c.pgc" % d, pairs)
            use = allopts if len(pairs) < 2 and not ck.quick else [allopts[(n * 5 + k * 11) % 32] for k in range(32 if len(pairs) < 2 else 3)]
            for o in use:
                prow, grow = all_required([("c.pgc", pairs)], o)
                p, g = pgc_stats([f], **o)
                judge_table(p, prow, "CORPUS", (pairs, o))
                judge_table(g, grow, "BANK", (pairs, o), order=False)
                ck.step(1)
                ck.outcome((sorted(prow[0].items()), [sorted(x.items()) for x in grow]))
            ck.state(pairs)

    # 2. several files, the script
    some = [[], [catalog[1]], [catalog[4], catalog[9]], [catalog[3], catalog[17], catalog[28]], [catalog[24], catalog[2]]]
    flags = ("-e", "-f", "-p", "-r", "-u")
    for pick in itertools.product(range(len(some)), repeat=2):
        for bits in itertools.product((0, 1), repeat=5):
            key = ("files", pick, bits)
            if not ck.want(key):
                continue
            with ck.case(key, "script over several files"):
                sub = d + "/m"
                if not os.path.isdir(sub):
                    os.mkdir(sub)
                    fx.write_bank(sub + "/src bank.gml", SRC)
                    fx.write_bank(sub + "/trg.gml", TRG)
                named = []
                for name, i in zip(("a b.pgc", "c.pgc"), pick):
                    write_corpus(sub + "/" + name, some[i])
                    named.append((name, some[i]))
                o = dict(zip(OPTS, [bool(b) for b in bits]))
                args = [f for f, b in zip(flags, bits) if b]
                if all(bits):
                    args = ["-a"]
                if bits[0] != bits[1]:
                    args += ["-l"]
                prow, grow = all_required(named, o)
                rc, so, se = script.run("pgc_stats.py", args + [sub + "/*.pgc"])
                eq(rc, 0, "exit status", se)
                judge_text(so, prow, grow, (named, args))
                ck.step(1)
                ck.state(key)

    # 3. graph banks alone
    for bank, specs in (("src bank.gml", SRC), ("trg.gml", TRG)):
        for k in range(len(specs) + 1):
            for sub in itertools.permutations(specs, k):
                for bits in itertools.product((False, True), repeat=3):
                    key = ("bank", bank, tuple(g.id for g in sub), bits)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "graph banks"):
                        b = d + "/bk"
                        if not os.path.isdir(b):
                            os.mkdir(b)
                        fx.write_bank(b + "/one.gml", sub)
                        fx.write_bank(b + "/two.gml", TRG)
                        o = dict(zip(OPTS, bits + (True, True)))
                        want = [gb_row("one.gml", sub, o), gb_row("two.gml", TRG, o)]
                        kw = dict((x, o[x]) for x in OPTS[:3])
                        t = gb_stats([b + "/one.gml", b + "/two.gml"], "c14", **kw)
                        judge_table(t, want, "BANK", (key,))
                        args = ["-F", "c14"] + [f for f, x in zip(("-e", "-f", "-p"), bits) if x]
                        if all(bits):
                            args = ["--format", "c14", "-a"]
                        rc, so, se = script.run("gb_stats.py", args + [b + "/*.gml"])
                        eq(rc, 0, "exit status", se)
                        judge_text(so, None, want, key)
                        ck.step(2)
                        ck.state(key)

    # 4. tables written, read back, and cut short
    names = ["a", "x.pgc", "a b", "two  words".replace("  ", " "), "12", "0.5 3", "n" * 40, "-x", "%s",
             "a----b", "----", "----x y"]
    counts = [0, 7, 999999]
    floats = [0.0, 33.333333, 100.0, 1234.5]
    rows1 = list(itertools.product(names, counts, floats[:2], floats, counts[:2]))
    rows2 = [rows1[i] for i in range(0, len(rows1), 7 if ck.quick else 3)]
    pools = [[()], [(r,) for r in rows1], list(itertools.product(rows2, rows2[:9])),
             list(itertools.product(rows2[:6], repeat=3))]
    for pool in pools:
        for rs in pool:
            key = ("table", rs)
            if not ck.want(key):
                continue
            with ck.case(key, "tables written and read"):
                t = SmallTable()
                t.grow(len(rs))
                for i, r in enumerate(rs):
                    for c, v in zip(("NAME", "N", "P", "A", "M"), r):
                        t[c][i] = v
                t.summarize()
                eq(t["N"].overall, sum(r[1] for r in rs), "sum of a column")
                eq(t["M"].overall, sum(r[4] for r in rs), "sum of a column")
                fn = d + "/table.txt"
                f = open(fn, "w")
                t.write(legenda=bool(len(rs) % 2), out=f)
                f.close()
                back = SmallTable()
                back.read(fn)
                eq(back.keys(), t.keys(), "columns read back")
                eq([back[c].type for c in back.keys()], [t[c].type for c in t.keys()], "types read back")
                got = rows_of(back)
                eq(len(got), len(rs), "rows read back")
                for g, r in zip(got, rs):
                    w = dict(zip(("NAME", "N", "P", "A", "M"), r))
                    judge_row(g, w, "read back", 0.0051)
                    ok(isinstance(g["N"], (int, long)) and isinstance(g["P"], float), "type of a value read back", g)
                # reading adds to what the table already holds
                back.read(open(fn))
                eq(len(rows_of(back)), 2 * len(rs), "rows after reading twice")
                back.summarize()
                eq(back["N"].overall, 2 * sum(r[1] for r in rs), "sum after reading twice")
                text = fx.read_bytes(fn)
                ls = text.split("\n")
                end = [i for i, l in enumerate(ls) if l.startswith("----")][1]
                for cut in range(end + 1):
                    fx.write_bytes(fn, "\n".join(ls[:cut]) + ("\n" if cut else ""))
                    try:
                        SmallTable().read(fn)
                    except EOFError:
                        pass
                    else:
                        ok(False, "truncated table accepted", (cut, text))
                    ck.step(1)
                ck.state(rs)

    # 5. corpus segments: histories of changing and counting again
    segments(ck)


ANN = ("ma", "na")
SUBS = ("x", "y/z")


def segments(ck):
    cat = [[], [("s1", "t1", ALIGNS[1])], [("s1", "t1", ALIGNS[3]), ("s2", "t1", ALIGNS[2])]]
    places = list(itertools.product(ANN, SUBS))
    starts = list(itertools.product(range(3), repeat=4)) if not ck.quick else [
        s for s in itertools.product(range(3), repeat=4) if sum(s) % 3 == 1]
    changes = [(i, v) for i in range(4) for v in (1, 2)]
    targets = [["all"], None, ["ma"], ["na"], ["x"], ["na.y/z"], ["ma.x", "na.x"]]
    root = ck.tmpdir()
    home = os.getcwd()
    n = 0
    for start in starts:
        for ch in changes:
            for ti, tg in enumerate(targets):
                key = ("segment", start, ch, ti)
                if not ck.want(key):
                    continue
                if ck.quick and (ti + ch[0] + ch[1] + sum(start)) % 3:
                    continue
                with ck.case(key, "corpus segments counted, changed, counted again"):
                    n += 1
                    base = "%s/%d" % (root, n)
                    seg = base + "/seg"
                    have = {}
                    for (a, s), v in zip(places, start):
                        p = seg + "/pgc/" + a + "/" + s
                        os.makedirs(p)
                        fx.write_bank(p + "/src bank.gml", SRC)
                        fx.write_bank(p + "/trg.gml", TRG)
                        have[a, s] = cat[v]
                        if v:
                            write_corpus(p + "/f.pgc", cat[v])
                    work = base + "/work"
                    os.mkdir(work)
                    os.chdir(work)
                    try:
                        script.capture(corpus_seg_stats, ["all"], seg + "/", ANN, SUBS)
                        judge_segments(work, have, key)
                        seen = dict(have)
                        a, s = places[ch[0]]
                        have[a, s] = cat[ch[1]]
                        write_corpus("%s/pgc/%s/%s/f.pgc" % (seg, a, s), cat[ch[1]])
                        if tg is None or "all" in tg or a in tg or s in tg or a + "." + s in tg:
                            seen = have
                        script.capture(corpus_seg_stats, tg, seg, ANN, SUBS)
                        judge_segments(work, seen, key)
                        eq(os.getcwd(), work, "working directory afterwards", key)
                    finally:
                        os.chdir(home)
                    ck.step(2)
                    ck.state(key)
                    import shutil
                    shutil.rmtree(base)


def judge_segments(work, have, key):
    allp, allg = [], []
    for a in ANN:
        o = dict.fromkeys(OPTS, False)
        o["with_unaligned_roots"] = a == "na"
        ap, ag = [], []
        for s in SUBS:
            p, g = all_required([("f.pgc", have[a, s])], o) if have[a, s] else ([], [])
            check_file(work, ("seg", a, s.replace("/", ".")), p, g, key)
            ap += p
            ag += g
        check_file(work, ("seg", a), ap, ag, key)
        allp += ap
        allg += ag
    check_file(work, ("seg",), allp, allg, key)


def check_file(work, name, p, g, key):
    for kind, want in (("pgc", p), ("gb", g)):
        fn = "%s/stats.%s.%s" % (work, ".".join(name), kind)
        if not want:
            ok(not os.path.exists(fn), "table without rows written", (key, fn))
            continue
        ok(os.path.exists(fn), "table not written", (key, fn))
        judge_text(fx.read_bytes(fn), want if kind == "pgc" else None, want if kind == "gb" else None, (key, name))
