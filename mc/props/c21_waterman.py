# -*- coding: utf-8 -*-
"""C21: repeated local alignment"""

import itertools

from daeso.string.waterman_eggert import waterman_eggert

from mc.core import eq, ok, Mismatch
from mc.props.c20_align import legal, local_score, words, near

SCHEMES = (
    ("1/-1/-1", 1, -1, lambda e: -1),
    ("1/-9/-9", 1, -9, lambda e: -9),
    ("5/0/-5", 5, 0, lambda e: -5),
    ("3/-1/-2", 3, -1, lambda e: -2),
    ("2/-1/by element", 2, -1, lambda e: {"a": -1, "b": -3}.get(e, -2)),
)
# the recalculation between two alignments stops too early and re-opens pairs;
# the existing tests require its results (see known_findings.txt)
FINDING = "later alignments are what recalculating only the rows and columns of matched pairs gives"


def sim_of(m, mm):
    return lambda a, b: m if a == b else mm


def table(s1, s2, sim, gap, used):
    """best scores of local alignments ending at (i, j) without used pairs"""
    h = {}
    for i in range(len(s1) + 1):
        for j in range(len(s2) + 1):
            if not i or not j:
                h[i, j] = 0
                continue
            c = [0, h[i - 1, j] + gap(s1[i - 1]), h[i, j - 1] + gap(s2[j - 1])]
            if (i - 1, j - 1) not in used:
                c.append(h[i - 1, j - 1] + sim(s1[i - 1], s2[j - 1]))
            h[i, j] = max(c)
    return h


def deviation(s1, s2, sim, gap, als):
    """None, or what is not as required in a list of all local alignments"""
    used = set()
    for n, al in enumerate(als):
        best = max(table(s1, s2, sim, gap, used).values())
        if used & set(al):
            return "alignment %d shares pairs with earlier ones" % n
        if not near(local_score(al, s1, s2, sim, gap), best):
            return "alignment %d scores %r, the best remaining one %r" % (
                n, local_score(al, s1, s2, sim, gap), best)
        used |= set(al)
    if max(table(s1, s2, sim, gap, used).values()) > 0:
        return "not all alignments are listed"
    return None


def partial(s1, s2, sim, gap, limit):
    """what results if only the row and column of each matched pair are
    recalculated, each up to the first score that stays the same"""
    n1, n2 = len(s1), len(s2)
    h = {}

    def cell(i, j):
        return max((h[i - 1, j][0] + gap(s1[i - 1]), "U"),
                   (h[i - 1, j - 1][0] + sim(s1[i - 1], s2[j - 1]), "D"),
                   (h[i, j - 1][0] + gap(s2[j - 1]), "L"), (0, "T"))
    for i in range(n1 + 1):
        for j in range(n2 + 1):
            h[i, j] = cell(i, j) if i and j else (0, "T")
    out = []
    while len(out) < limit:
        top = max(v[0] for v in h.values())
        if not top:
            break
        i, j = min((p for p in h if h[p][0] == top), key=lambda p: (p[0] + p[1], p[0]))
        al = []
        while h[i, j][0] > 0:
            step = h[i, j][1]
            if step == "D":
                al.insert(0, (i - 1, j - 1))
            i, j = i - (step in "UD"), j - (step in "LD")
        out.append(al)
        for i, j in al:
            i, j = i + 1, j + 1
            h[i, j] = (0, "T")
            for cells in ([(k, j) for k in range(i + 1, n1 + 1)],
                          [(i, l) for l in range(j + 1, n2 + 1)]):
                for p in cells:
                    new = cell(*p)
                    if new == h[p]:
                        break
                    h[p] = new
    return out


def judge(ck, s1, s2, scheme):
    name, m, mm, gap = scheme
    sim = sim_of(m, mm)
    ctx = "%r %r %s" % (s1, s2, name)
    bound = 3 * len(s1) * len(s2) + 5
    tables, als = waterman_eggert(s1, s2, sim, gap, limit=bound)
    ck.step(len(als) + 1)
    ok(len(als) < bound, "the enumeration of alignments ends", ctx)
    eq(len(tables), len(als), "a score table for each alignment", ctx)
    for n, al in enumerate(als):
        legal(al, s1, s2, ctx)
        ok(al, "no alignment is empty", ctx + "\n%r" % (als,))
    h = table(s1, s2, sim, gap, ())
    best = max(h.values()) if h else 0
    if best > 0:
        ok(als, "there are local alignments", ctx)
        ok(near(local_score(als[0], s1, s2, sim, gap), best),
           "the first alignment has the highest score", "%s\n%r\n%r" % (ctx, als[0], best))
        eq(dict((k, v[0]) for k, v in tables[0].items()), h, "scores of the first alignment", ctx)
    else:
        eq(als, [], "no local alignments", ctx)
    for x, y in zip(als, als[1:]):
        ok(not set(x) & set(y), "successive alignments share no pair", ctx + "\n%r\n%r" % (x, y))
    covered = set(p for al in als for p in al)
    for i in range(len(s1)):
        for j in range(len(s2)):
            if sim(s1[i], s2[j]) > 0:
                ok((i, j) in covered, "every matching pair of positions is aligned",
                   "%s\n%r is not in %r" % (ctx, (i, j), als))
    for limit in sorted(set((None, 1, 2, len(als), len(als) + 1))):
        if limit == 0:
            continue
        t2, a2 = waterman_eggert(s1, s2, sim, gap, limit=limit)
        ck.step()
        eq(a2, als[:limit], "alignments up to a limit", "%s limit %r" % (ctx, limit))
        eq(len(t2), len(a2), "score tables up to a limit", ctx)
    dev = deviation(s1, s2, sim, gap, als)
    ck.outcome((ctx, als))
    if dev is None:
        return True
    want = partial(s1, s2, sim, gap, bound)
    if als == want:
        return False
    raise Mismatch("later alignments are the best without the pairs of earlier ones",
                   "%s\n%s\nobserved: %r" % (ctx, dev, als))


def run(ck):
    n2, n3, np = (4, 3, 4) if ck.quick else (5, 4, 5)
    ck.bounds = {"two letters": "all pairs up to length %d" % n2,
                 "three letters": "all pairs up to length %d" % n3,
                 "without repetitions": "all pairs up to length %d over as many letters" % np,
                 "scoring": "%d schemes with negative gap costs" % len(SCHEMES)}
    w2 = words("ab", 0, n2)
    w3 = words("abc", 1, n3)
    perms = [p for k in range(np + 1) for p in itertools.permutations("abcde"[:np], k)]
    todo = [("two letters", a, b) for a in w2 for b in w2]
    todo += [("three letters", a, b) for a in w3 for b in w3 if "c" in a]
    todo += [("without repetitions", a, b) for a in perms if list(a) == sorted(a) for b in perms]
    seen = False
    n = 0
    good = 0
    for group, a, b in todo:
        for scheme in SCHEMES:
            key = (group, "".join(a), "".join(b), scheme[0])
            if not ck.want(key):
                continue
            with ck.case(key, group):
                ck.state(key)
                full = judge(ck, a, b, scheme)
                n += 1
                good += full
                if group == "without repetitions" and scheme[0] == "1/-9/-9":
                    ok(full, "common runs are listed longest first", repr(key))
                if not full and not seen:
                    seen = True
                    ck.violate("recalculation", FINDING, "%r" % (key,))
    ck.notes.append("%d of %d enumerations list exactly the best non-intersecting alignments, "
                    "the others show the known finding" % (good, n))
