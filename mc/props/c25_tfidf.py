# -*- coding: utf-8 -*-
"""C25: term weights of document collections"""

import copy
import itertools
import math

from daeso.string.tf_idf import (tf_idf, idf, calculate_document_frequencies,
                                 calculate_term_frequencies)

from mc.core import eq, ok, close
from mc.props.c20_align import words


def same_weights(got, want, label, ctx):
    eq(len(got), len(want), label + ": documents", ctx)
    for g, w in zip(got, want):
        eq(len(g), len(w), label + ": terms", ctx)
        for x, y in zip(g, w):
            close(x, y, label, ctx)


def judge(ck, docs):
    before = copy.deepcopy(docs)
    ctx = repr(docs)
    terms = sorted(set(t for d in docs for t in d))
    n = len(docs)
    df = dict((t, len([d for d in docs if t in d])) for t in terms)
    ck.step(8)
    all_terms, tfs = calculate_term_frequencies(docs)
    eq(all_terms, terms, "terms of the collection, sorted", ctx)
    eq(tfs, [dict((t, list(d).count(t)) for t in set(d)) for d in docs],
       "term frequencies per document", ctx)
    eq(calculate_document_frequencies(tfs), df, "document frequencies", ctx)
    for normalized in (False, True):
        norm = math.log(n) if normalized and n > 1 else 1.0
        w = dict((t, math.log(n / float(df[t])) / norm) for t in terms)
        ts, weights = idf(docs, normalized) if normalized else idf(docs)
        eq(ts, terms, "terms of idf", ctx)
        same_weights(weights, [[w[t] for t in terms]] * n, "idf", ctx + " %r" % normalized)
        for indicator in (False, True):
            want = []
            for d in docs:
                d = list(d)
                if indicator:
                    want.append([w[t] * (t in d) for t in terms])
                else:
                    want.append([w[t] * d.count(t) / float(len(d)) if d else 0.0 for t in terms])
            ts, weights = tf_idf(docs, normalized=normalized, indicator=indicator)
            c = ctx + " normalized=%r indicator=%r" % (normalized, indicator)
            eq(ts, terms, "terms of tf*idf", c)
            same_weights(weights, want, "tf*idf", c)
            if normalized:
                for row in weights:
                    for x in row:
                        ok(-1e-9 <= x <= 1 + 1e-9, "normalised weights lie between 0 and 1", c)
            ck.outcome((normalized, indicator, weights))
    eq(docs, before, "documents are left alone", ctx)


def run(ck):
    n3, n2, n4 = (2, 3, 1) if ck.quick else (3, 4, 2)
    ck.bounds = {"collections": "none, one and two documents up to length 3 over three terms, three "
                                "documents up to %d, four up to %d over two terms" % (n3, n4)}
    one = words("abc", 0, 3)
    todo = [()] + [(d,) for d in words("abcd", 0, 3)]
    todo += list(itertools.product(one, repeat=2))
    todo += list(itertools.product(words("abc", 0, n3), repeat=3))
    todo += list(itertools.product(words("ab", 0, n2), repeat=3))
    todo += list(itertools.product(words("ab", 0, n4), repeat=4))
    todo += list(itertools.product(words("ab", 0, 1), repeat=5))
    names = {"a": u"t\xe9", "b": u"zz", "c": u"10", "d": u"t"}
    mixed = {"a": ("b", u"b"), "b": (u"a", "a"), "c": ("c", u"c"), "d": (u"0", "0")}
    seen = set()
    for n, docs in enumerate(todo):
        if docs in seen:
            continue
        seen.add(docs)
        key = ["".join(d) for d in docs]
        if not ck.want(key):
            continue
        with ck.case(key, "%d documents" % len(docs)):
            ck.state(key)
            judge(ck, [list(d) for d in docs])
            if n % 4 == 0:
                judge(ck, tuple(tuple(names[t] for t in d) for d in docs))
            elif n % 4 == 1:
                # plain and unicode strings mixed, also for one and the same term
                judge(ck, [[mixed[t][(i + j) % 2] for j, t in enumerate(d)] for i, d in enumerate(docs)])
            elif n % 4 == 2:
                judge(ck, [[mixed[t][0] for t in d] for d in docs])
