# -*- coding: utf-8 -*-
"""C24: set similarity measures"""

import itertools
import math

from daeso.string import similar as sim

from mc.core import eq, ok, close
from mc.props.c20_align import words

TYPES = (("str", lambda s: "".join(s)), ("list", list), ("tuple", tuple),
         ("unicode", lambda s: u"".join(s).replace(u"b", u"\xe9")))


def div(a, b):
    return a / float(b) if b else 0.0


# formulas on: lengths, numbers of distinct elements, distinct elements in common
PAIRWISE = (
    ("cosine", lambda n, m, u, i: div(i, math.sqrt(n * m))),
    ("tanimoto", lambda n, m, u, i: div(i, n + m - i)),
    ("dice", lambda n, m, u, i: div(2 * i, n + m)),
    ("jaccard", lambda n, m, u, i: div(i, u)),
    ("overlap_min", lambda n, m, u, i: div(i, min(n, m))),
    ("overlap", lambda n, m, u, i: div(i, min(n, m))),
    ("overlap_max", lambda n, m, u, i: div(i, max(n, m))),
)


def judge(ck, a, b, types):
    sa, sb = set(a), set(b)
    n, m, u, i = len(a), len(b), len(sa | sb), len(sa & sb)
    for tname, typ in types:
        x, y = typ(a), typ(b)
        ctx = "%r %r" % (x, y)
        got = []
        for name, formula in PAIRWISE:
            func = getattr(sim, name)
            ck.step(2)
            v = func(x, y)
            ok(isinstance(v, float), "a measure is a float", ctx + " " + name)
            close(v, formula(n, m, u, i), name, ctx)
            close(func(y, x), v, "%s is symmetric" % name, ctx)
            ok(0 <= v <= 1 + 1e-9, "%s lies between 0 and 1" % name, ctx)
            if not i:
                eq(v, 0.0, "%s of disjoint arguments" % name, ctx)
            if sa == sb and len(sa) == n and len(sb) == m and n:
                close(v, 1.0, "%s of equal arguments" % name, ctx)
            got.append(v)
        ck.step(3)
        eq(sim.type_match(x, y), i, "number of common types", ctx)
        tm = sum(1 for e in a if e in sb)
        mt = sum(1 for e in b if e in sa)
        eq(sim.token_match(x, y), tm, "number of tokens also in the second", ctx)
        eq(sim.sym_token_match(x, y), (tm + mt) / 2.0, "symmetric token match", ctx)
        eq((x, y), (typ(a), typ(b)), "arguments are left alone", ctx)
        ck.outcome(tuple(got))


def sets(ck, a, b):
    """sets and dicts as arguments"""
    if len(set(a)) == len(a) and len(set(b)) == len(b):
        judge(ck, a, b, (("set", set), ("frozenset", frozenset),
                         ("dict", lambda s: dict((e, 1) for e in s))))


def many(ck, seqs):
    inter = set(seqs[0]) if seqs else set()
    union = set()
    for s in seqs:
        inter &= set(s)
        union |= set(s)
    prod, total = 1, 0
    for s in seqs:
        prod *= len(s)
        total += len(s)
    for tname, typ in TYPES:
        args = [typ(s) for s in seqs]
        ctx = repr(args)
        ck.step(3)
        res = [sim.generalized_cosine(args), sim.generalized_dice(args),
               sim.generalized_jaccard(args)]
        want = [div(len(inter), math.sqrt(prod)), div(len(seqs) * len(inter), total),
                div(len(inter), len(union))] if seqs else [0.0] * 3
        for name, v, w in zip(("cosine", "Dice", "Jaccard"), res, want):
            close(v, w, "generalised " + name, ctx)
            if len(seqs) > 1:
                ok(0 <= v <= 1 + 1e-9, "bounds of generalised " + name, ctx)
        if len(seqs) == 2:
            eq(res, [sim.cosine(*args), sim.dice(*args), sim.jaccard(*args)],
               "generalised measures of two", ctx)
        rev = args[::-1]
        for f, v in zip((sim.generalized_cosine, sim.generalized_dice, sim.generalized_jaccard),
                        res):
            close(f(rev), v, "generalised measures do not depend on the order", ctx)
        eq(args, [typ(s) for s in seqs], "arguments are left alone", ctx)
        ck.outcome(tuple(res))


def run(ck):
    n, k, m = (4, 2, 4) if ck.quick else (5, 3, 4)
    ck.bounds = {"pairs": "all pairs of sequences up to length %d over three letters" % n,
                 "several": "all lists of up to %d sequences up to length %d over two letters"
                            % (m, k),
                 "types": "str, unicode, list, tuple, set, frozenset, dict"}
    ws = words("abc", 0, n)
    for p, a in enumerate(ws):
        key = ("pairs", "".join(a))
        if ck.want(key):
            with ck.case(key, "pairs"):
                for b in ws:
                    ck.state((a, b))
                    judge(ck, a, b, TYPES)
                    sets(ck, a, b)
    small = words("ab", 0, k)
    for r in range(m + 1):
        for seqs in itertools.product(small, repeat=r):
            key = ("several", ["".join(s) for s in seqs])
            if ck.want(key):
                with ck.case(key, "several"):
                    ck.state(key)
                    many(ck, seqs)
    for seqs in itertools.product([s for j in range(4) for s in itertools.permutations("abc", j)],
                                  repeat=3):
        key = ("three sets", ["".join(s) for s in seqs])
        if ck.want(key):
            with ck.case(key, "three sets"):
                ck.state(key)
                many(ck, seqs)
