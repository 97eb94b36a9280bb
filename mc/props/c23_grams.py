# -*- coding: utf-8 -*-
"""C23: n-grams, skip bigrams and ROUGE"""

import itertools

from daeso.string.ngram import n_gram_slices, n_gram_strings, n_gram_slices_range, pad
from daeso.string.sgram import skip_bigram_slices, padded_skip_bigram_slices
from daeso.string.rouge import (rouge_n, rouge_ngram, rouge_l, rouge_s, rouge_su,
                                rouge_skip_bigram)

from mc.core import eq, ok, close, raises
from mc.props.c20_align import words
from mc.props.c22_editing import subsequences

TYPES = (("str", lambda s: "".join(s), "".join),
         ("unicode", lambda s: u"".join(s).replace(u"b", u"\xe9"),
          lambda s: u"".join(s).replace(u"b", u"\xe9")),
         ("list", list, list), ("tuple", tuple, tuple))


def windows(w, n):
    return [w[i:i + n] for i in range(len(w)) if i + n <= len(w)]


def grams(ck, w, nmax, pmax):
    for tname, typ, back in TYPES:
        tokens = typ(w)
        for n in range(1, nmax + 1):
            for size in range(pmax + 1):
                for pstr in ("_", "#"):
                    ck.step(3)
                    ctx = "%r n=%d padding %d x %r" % (tokens, n, size, pstr)
                    padded = (pstr,) * size + w + (pstr,) * size
                    eq(pad(tokens, size, pstr), back(padded), "padded sequence", ctx)
                    want = [back(x) for x in windows(padded, n)]
                    if size == 0:
                        eq(n_gram_slices(tokens, n), want, "n-grams without padding", ctx)
                    got = n_gram_slices(tokens, n, size, pstr)
                    eq(got, want, "n-grams", ctx)
                    eq([type(g) for g in got], [type(tokens)] * len(want), "type of n-grams", ctx)
                    for sep in (" ", "", "+"):
                        eq(n_gram_strings(tokens, n, pad_size=size, pad_string=pstr, separator=sep),
                           [sep.join(x) for x in want], "n-grams as strings", ctx + " %r" % sep)
                    eq(n_gram_strings(tokens, n, size, pstr), [" ".join(x) for x in want],
                       "n-grams as strings separated by a space", ctx)
        for ns in ([], [1], [2, 1], [1, 2, 3], range(1, nmax)):
            ctx = "%r %r" % (tokens, ns)
            ck.step(3)
            eq(n_gram_slices_range(tokens, ns),
               dict((n, [back(x) for x in windows(w, n)]) for n in ns), "n-grams for a range", ctx)
            eq(n_gram_slices_range(tokens, ns, pad=True, pad_string="#"),
               dict((n, [back(x) for x in windows(("#",) * (n - 1) + w + ("#",) * (n - 1), n)])
                    for n in ns), "padded n-grams for a range", ctx)
            if ns:
                sizes = [(n * 2) % 3 for n in ns]
                eq(n_gram_slices_range(tokens, ns, pad=True, pad_sizes=sizes),
                   dict((n, [back(x) for x in windows(("_",) * s + w + ("_",) * s, n)])
                        for n, s in zip(ns, sizes)), "padding sizes for a range", ctx)
                raises(AssertionError,
                       lambda: n_gram_slices_range(tokens, ns, pad=True, pad_sizes=sizes + [1]),
                       "as many padding sizes as n's", ctx)
        eq(tokens, typ(w), "tokens are left alone")
        ck.outcome((tname, w))


def skips(w, limit):
    return [(w[i], w[j]) for i in range(len(w)) for j in range(i + 1, len(w))
            if limit is None or j - i - 1 <= limit]


def skip_grams(ck, w):
    for tname, typ, back in TYPES:
        tokens = typ(w)
        for limit in (None,) + tuple(range(len(w) + 2)):
            args = () if limit is None else (limit,)
            ctx = "%r limit %r" % (tokens, limit)
            ck.step(2)
            got = skip_bigram_slices(tokens, *args)
            eq(got, [tuple(back(x)) for x in skips(w, limit)], "skip bigrams", ctx)
            got = padded_skip_bigram_slices(tokens, *args)
            eq(got, [tuple(back(x)) for x in skips(("_",) + w + ("_",), limit)],
               "padded skip bigrams", ctx)
            if limit is not None:
                eq(padded_skip_bigram_slices(tokens, limit, pad_string="#"),
                   [tuple(back(x)) for x in skips(("#",) + w + ("#",), limit)],
                   "padded skip bigrams with another string", ctx)
        eq(tokens, typ(w), "tokens are left alone")


# -- ROUGE --------------------------------------------------------------------

def fmeasure(p, r, beta):
    if not p * r:
        return 0.0
    return (1 + beta ** 2) * p * r / float(r + beta ** 2 * p)


def counts(items):
    d = {}
    for i in items:
        d[i] = d.get(i, 0) + 1
    return d


def rouge_n_required(cand, refs, n):
    pool = counts([g for r in refs for g in windows(r, n)])
    c = counts(windows(cand, n))
    total = sum(pool.values())
    if not total:
        return 0.0
    return sum(min(c[g], pool.get(g, 0)) for g in c) / float(total)


def rouge_references(ck, cand, refs):
    for n in (1, 2, 3):
        ck.step()
        ctx = "%r %r n=%d" % (cand, refs, n)
        got = rouge_n(cand, list(refs), n)
        want = rouge_n_required(cand, refs, n)
        close(got, want, "ROUGE-N", ctx)
        ok(0 <= got <= 1, "bounds of ROUGE-N", ctx)
        close(rouge_n("".join(cand), ["".join(r) for r in refs], n), want,
              "ROUGE-N of strings", ctx)
        close(rouge_ngram(windows(cand, n), [g for r in refs for g in windows(r, n)]), want,
              "ROUGE-N of n-grams", ctx)
        ck.outcome(("n", n, got))
        if len(refs) == 1 and refs[0] == cand and len(cand) >= n:
            close(got, 1.0, "ROUGE-N of identical texts", ctx)


def rouge_pairs(ck, a, b):
    common = max(len(x) for x in subsequences(a) & subsequences(b))
    for tname, typ, back in TYPES[2:] + TYPES[:1]:
        x, y = typ(a), typ(b)
        for beta in (None, 0.5, 1, 2):
            kw = {} if beta is None else dict(beta=beta)
            bt = 1 if beta is None else beta
            ctx = "%r %r beta %r" % (x, y, beta)
            ck.step()
            got = rouge_l(x, y, **kw)
            want = fmeasure(common / float(len(a)), common / float(len(b)), bt) if a and b else 0.0
            close(got, want, "ROUGE-L", ctx)
            if a == b and a:
                close(got, 1.0, "ROUGE-L of identical texts", ctx)
            ck.outcome(("l", got))
            for limit in (None, 0, 1):
                args = dict(kw)
                if limit is not None:
                    args["distance_limit"] = limit
                for name, func, pre in (("S", rouge_s, ()), ("SU", rouge_su, ("_",))):
                    if pre and tname == "str":
                        continue
                    ck.step()
                    s1, s2 = set(skips(pre + a, limit)), set(skips(pre + b, limit))
                    m = float(len(s1 & s2))
                    want = fmeasure(m / len(s2), m / len(s1), bt) if s1 and s2 else 0.0
                    c = ctx + " limit %r" % limit
                    got = func(x, y, **args)
                    close(got, want, "ROUGE-" + name, c)
                    ok(-1e-9 <= got <= 1 + 1e-9, "bounds of ROUGE-" + name, c)
                    if a == b and len(pre + a) > 1:
                        close(got, 1.0, "ROUGE-%s of identical texts" % name, c)
                    if name == "S":
                        close(rouge_skip_bigram(skips(a, limit), skips(b, limit), **kw), want,
                              "ROUGE-S of skip bigrams", c)
                    ck.outcome((name, got))
        eq((x, y), (typ(a), typ(b)), "tokens are left alone")


def long_sequences(ck):
    """length is no limit"""
    n = 3000
    tokens = ["t%d" % i for i in range(n)]
    ck.step(3)
    eq(skip_bigram_slices(tokens, 1),
       [(tokens[i], tokens[j]) for i in range(n) for j in (i + 1, i + 2) if j < n],
       "skip bigrams of a long sequence")
    eq(n_gram_slices(tuple(tokens), 3), [tuple(tokens[i:i + 3]) for i in range(n - 2)],
       "n-grams of a long sequence")
    close(rouge_s(tokens, tokens, 2), 1.0, "ROUGE-S of a long text with itself")


def run(ck):
    n2, n3, nr, ns = (5, 4, 4, 5) if ck.quick else (7, 5, 5, 6)
    cn, rn = (4, 2) if ck.quick else (5, 3)
    ck.bounds = {"grams": "all sequences up to %d over two and %d over three letters, n up to 7, "
                          "padding up to 3" % (n2, n3),
                 "ROUGE-N": "candidates up to %d, all lists of up to two references up to %d, "
                            "and single ones up to %d" % (cn, rn, nr),
                 "ROUGE-L, S, SU": "all pairs up to length %d over two and 3 over three letters" % nr}
    for w in words("ab", 0, n2) + [w for w in words("abc", 1, n3) if "c" in w]:
        key = ("grams", "".join(w))
        if ck.want(key):
            with ck.case(key, "grams"):
                ck.state(key)
                grams(ck, w, 7, 3)
        key = ("skips", "".join(w))
        if ck.want(key):
            with ck.case(key, "skip grams"):
                skip_grams(ck, w)
    small = words("ab", 0, rn)
    refs = [(r,) for r in words("ab", 0, nr)] + [()]
    refs += list(itertools.product(small, repeat=2))
    refs += [(("a", "b"), ("b", "c"), ("c", "a", "b"))]
    for cand in words("ab", 0, cn) + [("c",), ("a", "c"), ("b", "c", "a", "b")]:
        key = ("rouge n", "".join(cand))
        if ck.want(key):
            with ck.case(key, "ROUGE-N"):
                for r in refs:
                    ck.state((key, r))
                    rouge_references(ck, cand, r)
    ws = words("ab", 0, nr)
    w3 = [w for w in words("abc", 1, 3)]
    for pool in (ws, w3):
        for a in pool:
            for b in pool:
                key = ("rouge pair", "".join(a), "".join(b))
                if ck.want(key):
                    with ck.case(key, "ROUGE-L, S, SU"):
                        ck.state(key)
                        rouge_pairs(ck, a, b)
    key = ("long",)
    if ck.want(key):
        with ck.case(key, "long"):
            long_sequences(ck)
