# -*- coding: utf-8 -*-
"""C22: longest common subsequence, edit distance, median string"""

import itertools
import math

from daeso.string.lcs import longest_common_subsequence, lcs, normalized_lcs
from daeso.string.levenshtein import levenshtein, normalized_levenshtein
from daeso.string.median import set_median_string

from mc.core import eq, ok, close
from mc.props.c20_align import words

TYPES = (("str", lambda s: "".join(s)), ("list", list), ("tuple", tuple),
         ("unicode", lambda s: u"".join(s).replace(u"b", u"\xe9")))


def subsequences(w):
    return set(tuple(w[i] for i in c) for k in range(len(w) + 1)
               for c in itertools.combinations(range(len(w)), k))


def is_subsequence(x, w):
    it = iter(w)
    return all(any(c == d for d in it) for c in x)


def neighbours(w, alphabet, maxlen):
    """all words one insertion, deletion or substitution away"""
    out = set()
    for i in range(len(w)):
        out.add(w[:i] + w[i + 1:])
        for c in alphabet:
            out.add(w[:i] + (c,) + w[i + 1:])
    if len(w) < maxlen:
        for i in range(len(w) + 1):
            for c in alphabet:
                out.add(w[:i] + (c,) + w[i:])
    out.discard(w)
    return out


def distances(w, alphabet, maxlen, near):
    """length of the shortest path of single edits to all other words"""
    dist = {w: 0}
    front = [w]
    while front:
        nxt = []
        for x in front:
            if x not in near:
                near[x] = neighbours(x, alphabet, maxlen)
            for y in near[x]:
                if y not in dist:
                    dist[y] = dist[x] + 1
                    nxt.append(y)
        front = nxt
    return dist


def run(ck):
    n2, n3 = (5, 4) if ck.quick else (7, 5)
    nm, k = (2, 4) if ck.quick else (3, 4)
    ck.bounds = {"two letters": "all pairs up to length %d" % n2,
                 "three letters": "all pairs up to length %d" % n3,
                 "median": "all sequences of up to %d words up to length %d" % (k, nm),
                 "types": "str, unicode, list, tuple"}
    for alphabet, n in (("ab", n2), ("abc", n3)):
        near = {}
        all_words = words(alphabet, 0, n)
        subs = {}
        for a in all_words:
            key = ("from", alphabet, n, "".join(a))
            if not ck.want(key):
                continue
            with ck.case(key, "pairs over " + alphabet):
                dist = distances(a, alphabet, n, near)
                sub_a = subsequences(a)
                for b in all_words:
                    ck.step()
                    ck.state((alphabet, a, b))
                    if b not in subs:
                        subs[b] = subsequences(b)
                    best = max(len(x) for x in sub_a & subs[b])
                    pair(ck, a, b, best, dist[b], alphabet)
    # medians
    pool = words("ab", 0, nm)
    for m in range(1, k + 1):
        for ws in itertools.product(pool, repeat=m):
            if m == k and sorted(ws) != list(ws) and sorted(ws) != list(reversed(ws)):
                continue
            key = ("median", ["".join(w) for w in ws])
            if not ck.want(key):
                continue
            with ck.case(key, "medians"):
                ck.step()
                median(ck, ws)


def pair(ck, a, b, best, dist, alphabet):
    for tname, typ in TYPES:
        sa, sb = typ(a), typ(b)
        ctx = "%r %r" % (sa, sb)
        res = longest_common_subsequence(sa, sb)
        eq(type(res), type(sa), "type of the common subsequence", ctx)
        ok(is_subsequence(res, sa) and is_subsequence(res, sb), "common subsequence",
           ctx + "\n%r" % (res,))
        eq(len(res), best, "longest common subsequence", ctx)
        norm = normalized_lcs(sa, sb)
        close(norm, best / math.sqrt(len(a) * len(b)) if a and b else 0.0,
              "normalised longest common subsequence", ctx)
        ok(0 <= norm <= 1 + 1e-9, "bounds of the normalised longest common subsequence", ctx)
        eq(levenshtein(sa, sb), dist, "edit distance", ctx)
        norm = normalized_levenshtein(sa, sb)
        close(norm, dist / float(max(len(a), len(b))) if a or b else 0.0,
              "normalised edit distance", ctx)
        ok(0 <= norm <= 1, "bounds of the normalised edit distance", ctx)
        eq((sa, sb), (typ(a), typ(b)), "sequences are left alone", ctx)
        ck.outcome((tname, a, b, res, dist))
    # of different types
    res = lcs(list(a), "".join(b))
    eq((type(res), len(res)), (list, best), "common subsequence of a list and a string",
       "%r %r" % (a, b))
    eq(levenshtein(list(a), "".join(b)), dist, "edit distance of a list and a string",
       "%r %r" % (a, b))


# distances for the median; the last one is no metric
def hamming(x, y):
    return sum(1 for p, q in itertools.izip_longest(x, y) if p != q)


DISTS = (("levenshtein", levenshtein), ("hamming", hamming),
         ("length", lambda x, y: abs(len(x) - len(y))),
         ("fractional", lambda x, y: normalized_levenshtein(x, y)),
         ("negative", lambda x, y: -levenshtein(x, y)))


def median(ck, ws):
    for tname, typ in TYPES[:2]:
        strings = [typ(w) for w in ws]
        for dname, dist in DISTS:
            got = set_median_string(strings, dist)
            ctx = "%r %s" % (strings, dname)
            ok(got in strings, "the median is one of the strings", ctx + "\n%r" % (got,))

            def total(s):
                # distance to itself is left out, it is zero
                return sum(dist(s, t) for t in strings)
            least = min(total(s) for s in strings)
            ok(abs(total(got) - least) < 1e-9, "the median has the least total distance",
               "%s\n%r has %r, least is %r" % (ctx, got, total(got), least))
            ck.outcome((dname, ws, got))
        eq(strings, [typ(w) for w in ws], "strings are left alone")
