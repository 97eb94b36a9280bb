# -*- coding: utf-8 -*-
"""C20: optimal global and local sequence alignment"""

import itertools
import StringIO

from daeso.string.needleman_wunsch import needleman_wunsch, print_alignment
from daeso.string.smith_waterman import smith_waterman

from mc.core import eq, ok

# similarity as a function of (e1, e2), the last one is not symmetric
SIMS = (
    ("match 1", lambda a, b: 1 if a == b else -1),
    ("match 5 or 0", lambda a, b: 5 if a == b else 0),
    ("by element", lambda a, b: {"a": 3, "b": 1, "c": 2}[a] if a == b else -2),
    ("one sided", lambda a, b: 2 if (a, b) == ("a", "b") else (1 if a == b else -3)),
    ("fractions", lambda a, b: 0.75 if a == b else -0.5),
    ("all bad", lambda a, b: -2),
)
GAPS = (
    ("-1", lambda e: -1),
    ("-2", lambda e: -2),
    ("by element", lambda e: {"a": -1, "b": -3, "c": -2}[e]),
    ("by element 2", lambda e: {"a": -4, "b": -0.25, "c": -1}[e]),
    ("-10", lambda e: -10),
)


def words(alphabet, lo, hi):
    return [w for n in range(lo, hi + 1) for w in itertools.product(alphabet, repeat=n)]


_MATCH = {}


def matchings(n1, n2):
    """all order preserving one-to-one matchings of n1 and n2 positions"""
    key = (n1, n2)
    if key not in _MATCH:
        out = []
        for k in range(min(n1, n2) + 1):
            for x in itertools.combinations(range(n1), k):
                for y in itertools.combinations(range(n2), k):
                    out.append(tuple(zip(x, y)))
        _MATCH[key] = out
    return _MATCH[key]


def global_score(m, s1, s2, sim, gap):
    x = set(i for i, j in m)
    y = set(j for i, j in m)
    return (sum(sim(s1[i], s2[j]) for i, j in m) +
            sum(gap(e) for i, e in enumerate(s1) if i not in x) +
            sum(gap(e) for j, e in enumerate(s2) if j not in y))


def local_score(m, s1, s2, sim, gap):
    """score of a local alignment: gaps before and after it are free"""
    total = sum(sim(s1[i], s2[j]) for i, j in m)
    for (i, j), (k, l) in zip(m, m[1:]):
        total += sum(gap(e) for e in s1[i + 1:k]) + sum(gap(e) for e in s2[j + 1:l])
    return total


def legal(al, s1, s2, ctx):
    ok(isinstance(al, list), "an alignment is a list", ctx)
    for p in al:
        ok(isinstance(p, tuple) and len(p) == 2 and 0 <= p[0] < len(s1) and 0 <= p[1] < len(s2),
           "alignment refers to positions of both sequences", ctx + "\n%r" % (al,))
    for p, q in zip(al, al[1:]):
        ok(p[0] < q[0] and p[1] < q[1], "alignment is one-to-one and in order", ctx + "\n%r" % (al,))


def near(a, b):
    return abs(a - b) < 1e-9


def judge(ck, s1, s2, typ):
    sa, sb = typ(s1), typ(s2)
    for sname, sim in SIMS:
        for gname, gap in GAPS:
            ctx = "%r %r similarity %s gap cost %s" % (sa, sb, sname, gname)
            ck.step(2)
            scores, al = needleman_wunsch(sa, sb, sim, gap)
            legal(al, s1, s2, ctx)
            best = max(global_score(m, s1, s2, sim, gap) for m in matchings(len(s1), len(s2)))
            got = global_score(al, s1, s2, sim, gap)
            ok(near(got, best), "the global alignment has the highest score",
               "%s\nobserved: %r of score %r\nrequired score: %r" % (ctx, al, got, best))
            ok(near(scores[len(s1), len(s2)][0], best), "reported score of the global alignment",
               "%s\nobserved: %r\nrequired: %r" % (ctx, scores[len(s1), len(s2)], best))
            if typ is list and sname == "match 1" and s1 and s2:
                shown(sa, sb, al, ctx)
            scores, al = smith_waterman(sa, sb, sim, gap)
            legal(al, s1, s2, ctx)
            best = max([0] + [local_score(m, s1, s2, sim, gap)
                              for m in matchings(len(s1), len(s2)) if m])
            got = local_score(al, s1, s2, sim, gap)
            ok(near(got, best), "the local alignment has the highest score",
               "%s\nobserved: %r of score %r\nrequired score: %r" % (ctx, al, got, best))
            ok(near(max(s[0] for s in scores.values()), best),
               "reported score of the local alignment", ctx)
            if best == 0:
                eq(al, [], "nothing is aligned when no pair scores above zero", ctx)
            ck.outcome((sname, gname, tuple(al), best))
    eq((sa, sb), (typ(s1), typ(s2)), "sequences are left alone")


def shown(sa, sb, al, ctx):
    """the printed alignment marks exactly the aligned pairs"""
    out = StringIO.StringIO()
    print_alignment(sa, sb, al, stdout=out)
    lines = [l for l in out.getvalue().split("\n") if l.strip()]
    marks = set()
    rows = lines[-len(sa):]
    for i, row in enumerate(rows):
        cells = row.split()
        eq(cells[:2], [str(i), str(sa[i])], "label of a printed row", ctx)
        for j, c in enumerate(cells[2:]):
            if c == "x":
                marks.add((i, j))
    eq(marks, set(al), "printed alignment", ctx)


def run(ck):
    n2, n3, one = (4, 3, 6) if ck.quick else (5, 4, 8)
    ck.bounds = {"two letters": "all pairs up to length %d" % n2,
                 "three letters": "all pairs up to length %d" % n3,
                 "one against many": "lengths 1..2 against up to %d" % one,
                 "scoring": "%d similarities x %d gap costs, each on lists, tuples and strings"
                            % (len(SIMS), len(GAPS))}
    w2 = words("ab", 0, n2)
    w3 = words("abc", 1, n3)
    pairs = [("two letters", a, b) for a in w2 for b in w2]
    pairs += [("three letters", a, b) for a in w3 for b in w3
              if "c" in a or "c" in b]
    long_ = words("ab", n2 + 1, one)
    short = words("ab", 0, 2 if not ck.quick else 1)
    pairs += [("one against many", a, b) for a in short for b in long_]
    pairs += [("many against one", b, a) for a in short for b in long_]
    types = (list, tuple, lambda s: "".join(s))
    for n, (group, a, b) in enumerate(pairs):
        key = (group, "".join(a), "".join(b))
        if not ck.want(key):
            continue
        with ck.case(key, group):
            ck.state(key)
            judge(ck, a, b, types[n % 3])
