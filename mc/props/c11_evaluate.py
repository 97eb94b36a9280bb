# -*- coding: utf-8 -*-
"""
Evaluation of alignments: all pairs of small alignments against counts and
scores computed from plain sets.
"""
import cStringIO
import itertools
import math
import os

from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.evaluate import AlignEval, AlignCounts
from daeso.pgc.graphpair import GraphMatching, GraphMapping
from mc.core import eq, ok, close, Mismatch
from mc import fx

RELS = ("equals", "restates", "specifies", "generalizes", "intersects")
MEASURES = ("prec", "rec", "f")
COUNTS = ("true", "pred", "common")
STUB = None


def make(al, cls):
    """graph pair with alignments {(s, t): relation}"""
    gp = fx.mem_pair(cls=cls)
    for (s, t), r in sorted(al.items()):
        gp.add_align(Pair(s, t), r)
    return gp


def corpus(als, cls, rels):
    return ParallelGraphCorpus([make(a, cls) for a in als], list(rels))


def scores(c, beta=1.0):
    t, p, m = c["true"], c["pred"], c["common"]
    prec = m / float(p) if p else 0.0
    rec = m / float(t) if t else 0.0
    den = beta ** 2 * prec + rec
    f = (beta ** 2 + 1) * prec * rec / den if den else 0.0
    return dict(prec=prec, rec=rec, f=f)


def mean(xs):
    xs = list(xs)
    return sum(xs) / float(len(xs))


def var(xs, mu):
    xs = list(xs)
    if len(xs) == 1:
        return 0.0
    return sum((x - mu) ** 2 for x in xs) / (len(xs) - 1.0)


def required_counts(parts, rel):
    """parts: [(true alignments, predicted alignments)], both lists per graph pair"""
    res = []
    for true, pred in parts:
        c = dict.fromkeys(COUNTS, 0)
        for t, p in zip(true, pred):
            if rel is None:
                t, p = set(t), set(p)
            else:
                t = set(n for n in t if t[n] == rel)
                p = set(n for n in p if p[n] == rel)
            c["true"] += len(t)
            c["pred"] += len(p)
            c["common"] += len(t & p)
        res.append(c)
    return res


def judge(ck, key, ev, parts, rels, names):
    sums = {}
    for rel in (None,) + tuple(rels):
        table = ev[AlignEval.any_rel if rel is None else rel]
        want = required_counts(parts, rel)
        eq([dict(r.counts) for r in table], want, "counts", (key, rel))
        sc = [scores(c) for c in want]
        sums[rel] = dict((k, sum(c[k] for c in want)) for k in COUNTS)
        micro = scores(sums[rel])
        for r, s in zip(table, sc):
            for m in MEASURES:
                close(r.measures[m], s[m], "score " + m, (key, rel))
        for k in COUNTS:
            st = table.count_stats[k]
            mu = mean(c[k] for c in want)
            v = var([c[k] for c in want], mu)
            eq(st["sum"], sums[rel][k], "sum of counts", (key, rel, k))
            close(st["mean"], mu, "mean of counts", (key, rel, k))
            close(st["var"], v, "variance of counts", (key, rel, k))
            close(st["sd"], math.sqrt(v), "deviation of counts", (key, rel, k))
        for m in MEASURES:
            for method, mu in (("macro", mean(s[m] for s in sc)), ("micro", micro[m])):
                st = table.measure_stats[m][method]
                v = var([s[m] for s in sc], mu)
                close(st["mean"], mu, "%s mean" % method, (key, rel, m))
                close(st["var"], v, "%s variance" % method, (key, rel, m))
                close(st["sd"], math.sqrt(v), "%s deviation" % method, (key, rel, m))
        ck.outcome((rel, want))
    total = dict((k, sum(sums[r][k] for r in rels)) for k in COUNTS)
    eq(dict((k, ev.count_stats[k]["sum"]) for k in COUNTS), total, "counts over all relations", key)
    micro = scores(total)
    for m in MEASURES:
        close(ev.measure_stats[m]["micro"]["mean"], micro[m], "micro average over all relations", (key, m))
        close(ev.measure_stats[m]["macro"]["mean"], mean(scores(sums[r])[m] for r in rels),
              "macro average over all relations", (key, m))
    eq(ev.names, names, "names", key)
    return sums, total


def u8(s):
    return s.encode("utf-8") if isinstance(s, unicode) else s


def report(ck, key, ev, parts, rels, names, sums, total, to_file=None):
    """the numbers in the written report"""
    if to_file:
        ev.write(to_file)
        text = fx.read_bytes(to_file)
    else:
        out = cStringIO.StringIO()
        ev.write(out)
        text = out.getvalue()
    rows = [l for l in text.split("\n") if l.strip() and not l.startswith(("=", "-"))]
    want = ["Alignment only (regardlless of relation)"]

    def fmt(x, percent=True):
        return "%.2f" % (x * 100 if percent else x)

    def table(rel):
        cs = required_counts(parts, rel)
        sc = [scores(c) for c in cs]
        t = ["Name: True: Pred: Common:"]
        t += [" ".join([u8(n)] + [str(c[k]) for k in COUNTS]) for n, c in zip(names, cs)]
        t.append(" ".join(["Sum:"] + [str(sums[rel][k]) for k in COUNTS]))
        mus = [mean(c[k] for c in cs) for k in COUNTS]
        vs = [var([c[k] for c in cs], mu) for k, mu in zip(COUNTS, mus)]
        t.append(" ".join(["Mean:"] + [fmt(x, 0) for x in mus]))
        t.append(" ".join(["Var:"] + [fmt(x, 0) for x in vs]))
        t.append(" ".join(["Sd:"] + [fmt(math.sqrt(x), 0) for x in vs]))
        t.append("Name: Prec: Rec: F:")
        t += [" ".join([u8(n)] + [fmt(s[m]) for m in MEASURES]) for n, s in zip(names, sc)]
        for method in ("Macro", "Micro"):
            mus = [mean(s[m] for s in sc) if method == "Macro" else scores(sums[rel])[m] for m in MEASURES]
            vs = [var([s[m] for s in sc], mu) for m, mu in zip(MEASURES, mus)]
            t.append(" ".join([method, "Mean:"] + [fmt(x) for x in mus]))
            t.append(" ".join([method, "Var:"] + [fmt(x) for x in vs]))
            t.append(" ".join([method, "Sd:"] + [fmt(math.sqrt(x)) for x in vs]))
        return t

    want += table(None)
    want.append("Alignment per relation")
    for rel in rels:
        want.append(u8(rel.upper()))
        want += table(rel)
    want += ["Alignment over all relations", "Relation: True: Pred: Common:"]
    want += [" ".join([u8(r)] + [str(sums[r][k]) for k in COUNTS]) for r in rels]
    want.append(" ".join(["Sum:"] + [str(total[k]) for k in COUNTS]))
    want.append("Relation: Prec: Rec: F:")
    want += [" ".join([u8(r)] + [fmt(scores(sums[r])[m]) for m in MEASURES]) for r in rels]
    want.append(" ".join(["Macro Mean:"] + [fmt(mean(scores(sums[r])[m] for r in rels)) for m in MEASURES]))
    want.append(" ".join(["Micro Mean:"] + [fmt(scores(total)[m]) for m in MEASURES]))
    got = [" ".join(r.split()) for r in rows]
    near(got, want, key)


def near(got, want, key):
    """equal rows, allowing for a last digit rounded the other way"""
    eq(len(got), len(want), "number of lines of the report", (key, got, want))
    for g, w in zip(got, want):
        if g == w:
            continue
        gs, ws = g.split(), w.split()
        eq(len(gs), len(ws), "line of the report", (key, g, w))
        for a, b in zip(gs, ws):
            if a != b:
                try:
                    good = "." in a and "." in b and abs(float(a) - float(b)) < 0.0101
                except ValueError:
                    good = False
                ok(good, "line of the report", (key, g, w))


def alignments(src, tgt, rels, matching):
    """all alignments between two node sets"""
    pairs = [(s, t) for s in src for t in tgt]
    for labels in itertools.product((None,) + tuple(rels), repeat=len(pairs)):
        a = dict((p, r) for p, r in zip(pairs, labels) if r)
        if matching and (len(set(s for s, t in a)) < len(a) or len(set(t for s, t in a)) < len(a)):
            continue
        yield a


def evaluate(ck, key, parts, cls, rels, names=None, write=None):
    ev = AlignEval(rels) if rels != RELS else AlignEval()
    given = list(names) if names else [None] * len(parts)
    want_names = [n or "part%d" % (i + 1) for i, n in enumerate(given)]
    for n, (true, pred) in zip(given, parts):
        ct, cp = corpus(true, cls, rels), corpus(pred, cls, rels)
        ev.add(ct, cp, n)
        ck.step()
        eq([fx.aligned(g) for g in ct] + [fx.aligned(g) for g in cp],
           [sorted((s, t, r) for (s, t), r in a.items()) for a in list(true) + list(pred)],
           "evaluation changed a corpus", key)
    ev.run_eval()
    sums, total = judge(ck, key, ev, parts, rels, want_names)
    if write is not None:
        report(ck, key, ev, parts, rels, want_names, sums, total, write or None)
    # evaluating again changes nothing
    ev.run_eval()
    judge(ck, key, ev, parts, rels, want_names)
    ck.state((parts, rels))


def run(ck):
    N = ("n0", "n1")
    match1 = list(alignments(N, N, RELS[:2], True))
    match0 = list(alignments(N, N, RELS[2:3], True))
    mapp1 = list(alignments(N, N, RELS[1:3], False))
    line = list(alignments(("n0",), ("n0", "m1"), RELS[2:], True))
    thr = list(alignments(("n0", "n1", "n2"), ("n0", "n1", "n2"), RELS[:1], True))
    ck.bounds["alignments"] = ("all pairs of: one-to-one 2x2 with 2 relations (%d), many-to-many 2x2 with 2 relations (%d), "
                               "3x3 with one relation (%d), two graph pairs and two corpora over smaller ones" % (
                                   len(match1), len(mapp1), len(thr)))
    tmp = ck.tmpdir()
    sets = [("match", match1, GraphMatching), ("map", mapp1, GraphMapping), ("line", line, GraphMatching),
            ("3x3", thr, GraphMatching)]
    for name, als, cls in sets:
        for i, t in enumerate(als):
            for j, p in enumerate(als):
                key = ("one", name, i, j)
                if not ck.want(key):
                    continue
                with ck.case(key, "one graph pair"):
                    w = None
                    if (i + j) % 7 == 0:
                        w = os.path.join(tmp, "r.txt") if i % 2 else ""
                    evaluate(ck, key, [([t], [p])], cls, RELS, write=w)
    # two graph pairs in one corpus
    small = match0 + [dict([((s, t), r)]) for s, t, r in (("n0", "n0", "equals"), ("n0", "n1", "restates"), ("n1", "n0", "equals"))]
    if not ck.quick:
        small = match1
    for i in itertools.product(range(len(small)), repeat=4):
        key = ("two pairs", i)
        if not ck.want(key):
            continue
        with ck.case(key, "two graph pairs"):
            a, b, c, d = [small[k] for k in i]
            evaluate(ck, key, [([a, b], [c, d])], GraphMatching, RELS, ["x"])
    # two and three corpora, with names
    tiny = small[:8] if ck.quick else small[:12]
    for i in itertools.product(range(len(tiny)), repeat=4):
        key = ("two corpora", i)
        if not ck.want(key):
            continue
        with ck.case(key, "two corpora"):
            a, b, c, d = [tiny[k] for k in i]
            evaluate(ck, key, [([a], [b]), ([c], [d])], GraphMatching, RELS, ["first", None],
                     write="" if sum(i) % 5 == 0 else None)
    few = [{}, {("n0", "n0"): "equals"}, {("n0", "n0"): "restates", ("n1", "n1"): "equals"}]
    for i in itertools.product(range(3), repeat=6):
        key = ("three corpora", i)
        if not ck.want(key):
            continue
        with ck.case(key, "three corpora of different sizes"):
            a = [few[k] for k in i]
            parts = [([], []), ([a[0]], [a[1]]), ([a[2], a[3]], [a[4], a[5]])]
            evaluate(ck, key, parts, GraphMatching, RELS, ["p", "q", "r"], write="" if sum(i) % 3 == 0 else None)
    # names of the parts
    for names in itertools.product((None, "x", "part2", u"\xe9", "\xc3\xa9"), repeat=3):
        for more in ((), (None,), ("x", None)):
            key = ("names", names, more)
            if not ck.want(key):
                continue
            with ck.case(key, "names"):
                parts = [([few[i % 3]], [few[1]]) for i in range(3 + len(more))]
                evaluate(ck, key, parts, GraphMatching, RELS, names + more,
                         write=os.path.join(tmp, "n.txt") if more else "")
    # other relation sets
    for rels in (("a",), ("a", "b"), (u"a", "b", "c d"), ("equals", "equal"), (u"x\xe9", "x"), ("A", "a")):
        als = list(alignments(("n0",), ("n0", "n1"), rels, False))
        for i, t in enumerate(als):
            for j, p in enumerate(als):
                key = ("relations", rels, i, j)
                if ck.want(key):
                    with ck.case(key, "other relations"):
                        evaluate(ck, key, [([t], [p])], GraphMapping, rels,
                                 write=os.path.join(tmp, "r.txt") if (i + j) % 2 else "")
    # scores of given counts
    top = 6 if ck.quick else 10
    for t in range(top):
        for p in range(top):
            for c in range(min(t, p) + 1):
                for beta in (0, 0.25, 0.5, 1, None):
                    key = ("scores", t, p, c, beta)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "scores of counts"):
                        x = AlignCounts()
                        x.counts.update(true=t, pred=p, common=c)
                        if beta is None:
                            x.run_eval()
                        else:
                            x.run_eval(beta)
                        w = scores(dict(true=t, pred=p, common=c), 1.0 if beta is None else float(beta))
                        for m in MEASURES:
                            close(x.measures[m], w[m], "score " + m, key)
                        ck.step()
                        ck.state(key)
                        ck.outcome(w)
