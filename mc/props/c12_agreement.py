# -*- coding: utf-8 -*-
"""
Agreement between annotators: all combinations of small annotations for two to
four annotators, in files, through the functions and through the tool.
"""
import itertools
import math
import os
import pickle

from daeso.gb.graphbank import GraphBank
from daeso.pair import Pair
from daeso.pgc.agreement import cross_evaluate, tableize, run_eval
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.evaluate import AlignEval
from daeso.pgc.graphpair import GraphPair
from mc.core import eq, ok, close, Mismatch
from mc import fx, script
from mc.props.c11_evaluate import RELS, MEASURES, required_counts, scores, mean

# graphs: n0 is the root over n1, n2; m0 over m1, m2
TERMS = set(["n1", "n2", "m1", "m2"])


def annotations():
    a = [
        [{}],
        [{("n0", "m0"): "equals"}],
        [{("n0", "m0"): "restates"}],
        [{("n1", "m1"): "equals"}],
        [{("n0", "m0"): "equals", ("n1", "m1"): "equals"}],
        [{("n0", "m0"): "equals", ("n1", "m2"): "specifies"}],
        [{("n0", "m1"): "equals", ("n1", "m0"): "generalizes", ("n2", "m2"): "intersects"}],
        [{("n0", "m1"): "restates", ("n1", "m2"): "specifies"}],
        [{("n1", "m1"): "equals", ("n2", "m2"): "equals", ("n0", "m0"): "equals"}],
        [{("n1", "m2"): "equals", ("n2", "m1"): "equals"}],
        [{("n1", "m1"): "intersects", ("n2", "m2"): "generalizes", ("n0", "m0"): "restates"}],
        [{("n2", "m0"): "specifies", ("n0", "m2"): "specifies"}],
    ]
    return a


def write_all(d, annots):
    fx.write_bank(os.path.join(d, "b1.xml"), [fx.small_graph("g", ["a", "b"])])
    h = fx.GSpec("h", ["c", "d"], [("m0", "top", ["c", "d"]), ("m1", "w", ["c"]), ("m2", "w", ["d"])],
                 [("m0", "m1"), ("m0", "m2")], "m0")
    fx.write_bank(os.path.join(d, "b2.xml"), [h])
    fns = []
    for i, parts in enumerate(annots):
        gps = []
        for al in parts:
            gp = GraphPair(Pair(GraphBank(os.path.join(d, "b1.xml"), "graphml"), GraphBank(os.path.join(d, "b2.xml"), "graphml")),
                           Pair(fx.small_graph("g", ["a", "b"]).build(), h.build()))
            for (s, t), r in al.items():
                gp.add_align(Pair(s, t), r)
            gps.append(gp)
        fns.append(os.path.join(d, "c%d.pgc" % i))
        ParallelGraphCorpus(gps, RELS).write(fns[-1])
    return fns


def only_words(al):
    return dict((n, r) for n, r in al.items() if n[0] in TERMS and n[1] in TERMS)


def sd(xs, mu):
    xs = list(xs)
    if len(xs) == 1:
        return 0.0
    return math.sqrt(sum((x - mu) ** 2 for x in xs) / (len(xs) - 1.0))


def required(als, names):
    """{relation or None: {measure: {true: {pred: score}}}}"""
    res = {}
    for rel in (None,) + RELS:
        res[rel] = dict((m, {}) for m in MEASURES)
        for (a, n) in zip(als, names):
            for m in MEASURES:
                res[rel][m][n] = {}
            for (b, o) in zip(als, names):
                if n != o:
                    s = scores(required_counts([(a, b)], rel)[0])
                    for m in MEASURES:
                        res[rel][m][n][o] = s[m]
    return res


def stats_of(table, names):
    cols = dict((c, [table[r][c] for r in names if r != c]) for c in names)
    every = [x for c in names for x in cols[c]]
    mu = dict((c, mean(cols[c])) for c in names)
    mu["overall"] = mean(every)
    dev = dict((c, sd(cols[c], mu[c])) for c in names)
    dev["overall"] = sd(every, mu["overall"])
    return mu, dev


def judge_tables(ck, key, tables, als, names):
    want = required(als, names)
    eq(sorted(map(repr, tables)), sorted(map(repr, list(RELS) + [AlignEval.any_rel])), "relations", key)
    for rel in (None,) + RELS:
        t = tables[AlignEval.any_rel if rel is None else rel]
        for m in MEASURES:
            ctx = (key, rel, m)
            eq(sorted(t[m].keys()), sorted(names + ["mean", "SD"]), "rows of the agreement table", ctx)
            for a in names:
                for b in names:
                    if a != b:
                        close(t[m][a][b], want[rel][m][a][b], "agreement of two annotators", (ctx, a, b))
            mu, dev = stats_of(want[rel][m], names)
            for c in names + ["overall"]:
                close(t[m]["mean"][c], mu[c], "mean agreement", (ctx, c))
                close(t[m]["SD"][c], dev[c], "deviation of agreement", (ctx, c))
        for a in names:
            for b in names:
                if a != b:
                    close(t["prec"][a][b], t["rec"][b][a], "precision is not recall the other way around", (key, rel))
                    close(t["f"][a][b], t["f"][b][a], "F depends on the direction", (key, rel))
    ck.outcome([sorted(want[r]["f"].items()) for r in (None,) + RELS])


def judge_output(key, text, als, names):
    """the tables printed by the tool"""
    want = required(als, names)
    seen = {}
    rel = measure = None
    for l in text.split("\n"):
        if l.startswith("Agreement on relation "):
            rel = l[len("Agreement on relation "):].strip()
            rel = None if rel == AlignEval.any_rel else rel
        elif l.strip() in ("PREC", "REC", "F") and rel != "?":
            measure = l.strip().lower()
        elif ":" in l and measure and not l.startswith(" " * 12):
            label, rest = l.split(":", 1)
            label = label.strip()
            if (rel, measure, label) in seen:
                continue
            seen[rel, measure, label] = [rest[i:i + 12].strip() for i in range(0, len(rest), 12)]
    for r in (None,) + RELS:
        for m in MEASURES:
            mu, dev = stats_of(want[r][m], names)
            cols = sorted(names)
            rows = [(a, [want[r][m][a].get(b) for b in cols]) for a in cols]
            rows += [("mean", [mu[c] for c in cols + ["overall"]]), ("SD", [dev[c] for c in cols + ["overall"]])]
            for label, values in rows:
                got = seen.get((r, m, label))
                ok(got is not None, "row missing in the printed table", (key, r, m, label, text))
                for g, v in zip(got + [""] * len(values), values):
                    if v is None:
                        eq(g, "", "cell of an annotator with itself", (key, r, m, label))
                    else:
                        try:
                            good = abs(float(g) - v * 100) < 0.0101
                        except ValueError:
                            good = False
                        ok(good, "printed agreement", (key, r, m, label, g, v))


def explore(ck, d, fns, annots, combos, group, tool=7):
    for combo in combos:
        for words in (False, True):
            key = (group, combo, words)
            if not ck.want(key):
                continue
            with ck.case(key, group):
                als = [[only_words(a) if words else a for a in annots[i]] for i in combo]
                files = [fns[i] for i in combo]
                given = len(combo) != 3
                names = [["zoe", "ann", "bob", "x y"][k] if given else "A%d" % (k + 1) for k in range(len(combo))]
                ev = cross_evaluate(files, names if given else None, words_only=words)
                pairs = [(a, b) for a in names for b in names if a != b]
                eq(ev.names, pairs, "pairs of annotators", key)
                index = dict(zip(names, als))
                for rel in (None,) + RELS:
                    t = ev[AlignEval.any_rel if rel is None else rel]
                    want = [required_counts([(index[a], index[b])], rel)[0] for a, b in pairs]
                    eq([dict(r.counts) for r in t], want, "counts", (key, rel))
                    for m in MEASURES:
                        close(t.measure_stats[m]["macro"]["mean"], mean(scores(c)[m] for c in want),
                              "mean over all pairs of annotators", (key, rel, m))
                judge_tables(ck, key, tableize(ev), als, names)
                ck.step(len(pairs))
                ck.state(key)
                if sum(combo) % tool == 0:
                    pk = os.path.join(d, "out.pickle")
                    (ev2, tables), text = script.capture(run_eval, files, names if given else None, pk, words)
                    judge_tables(ck, key, tables, als, names)
                    judge_output(key, text, als, names)
                    f = open(pk, "rb")
                    ev3, tables3 = pickle.load(f)
                    f.close()
                    judge_tables(ck, (key, "pickled"), tables3, als, names)
                    eq(ev3.names, pairs, "pickled pairs of annotators", key)
                    os.unlink(pk)
                    args = ["-w"] if words else []
                    if given:
                        for n in names:
                            args += ["-a", n]
                    rc, so, se = script.run("pgc_agreement.py", args + files)
                    eq(rc, 0, "exit status", (key, se))
                    judge_output(key, so, als, names)
                    ck.step(2 * len(pairs))


def run(ck):
    d = ck.tmpdir()
    one = annotations()
    # corpora of two graph pairs
    two = [x[:] + y[:] for x, y in itertools.product([one[0], one[4], one[5], one[7]], repeat=2)]
    f1 = write_all(d, one)
    n = len(one)
    ck.bounds["annotators"] = "all pairs and triples over %d annotations, all quadruples over %d, all pairs over %d two-pair annotations" % (n, 5, len(two))
    explore(ck, d, f1, one, itertools.product(range(n), repeat=2), "two annotators", 3)
    explore(ck, d, f1, one, itertools.product(range(n if not ck.quick else 9), repeat=3), "three annotators", 9)
    explore(ck, d, f1, one, itertools.product((0, 4, 5, 7, 8) if ck.quick else range(8), repeat=4), "four annotators", 19)
    d2 = ck.tmpdir()
    f2 = write_all(d2, two)
    explore(ck, d2, f2, two, itertools.product(range(len(two)), repeat=2), "two annotators, two graph pairs", 11)
