# -*- coding: utf-8 -*-
"""C29: minimum-cost assignment"""

import itertools

from daeso.thirdparty.munkres import Munkres, make_cost_matrix, print_matrix

from mc.core import eq, ok
from mc import script

BIG = 2 ** 40


def least(matrix):
    """least total cost over all ways to assign min(rows, columns) pairs, by
    enumeration of the assignments"""
    n, m = len(matrix), len(matrix[0])
    if n <= m:
        return min(sum(matrix[i][p[i]] for i in range(n))
                   for p in itertools.permutations(range(m), n))
    return min(sum(matrix[p[j]][j] for j in range(m))
               for p in itertools.permutations(range(n), m))


def judge(ck, solver, matrix, exact=True):
    before = [list(r) for r in matrix]
    rows = [id(r) for r in matrix]
    res = solver.compute(matrix)
    ctx = repr(matrix)
    eq(matrix, before, "the matrix is left alone", ctx)
    eq([id(r) for r in matrix], rows, "the rows are left alone", ctx)
    n, m = len(matrix), len(matrix[0])
    ok(isinstance(res, list) and all(len(p) == 2 for p in res), "list of pairs",
       "%s\n%r" % (ctx, res))
    ok(all(0 <= r < n and 0 <= c < m for r, c in res), "pairs lie in the matrix",
       "%s\n%r" % (ctx, res))
    eq(len(set(r for r, c in res)), len(res), "each row is used at most once",
       "%s\n%r" % (ctx, res))
    eq(len(set(c for r, c in res)), len(res), "each column is used at most once",
       "%s\n%r" % (ctx, res))
    eq(len(res), min(n, m), "as many pairs as possible", "%s\n%r" % (ctx, res))
    total = sum(matrix[r][c] for r, c in res)
    best = least(matrix)
    if exact:
        eq(total, best, "least total cost", "%s\n%r" % (ctx, res))
    else:
        ok(abs(total - best) <= 1e-9 * (1 + abs(best)), "least total cost",
           "%s\n%r: %r, least is %r" % (ctx, res, total, best))
    ck.step()
    ck.state(before)
    ck.outcome((n, m, res, total))
    return res


# rows for larger matrices; chosen for ties and for conflicts between rows
POOL4 = ((0, 0, 0, 0), (1, 2, 3, 4), (4, 3, 2, 1), (0, 1, 1, 1), (2, 2, 2, 0), (1, 2, 4, 8),
         (2, 4, 6, 8), (3, 6, 9, 12), (5, 0, 5, 0), (9, 1, 1, 9))
POOL5 = ((0, 0, 0, 0, 1), (1, 2, 3, 4, 5), (2, 4, 6, 8, 10), (3, 6, 9, 12, 15), (5, 4, 3, 2, 1),
         (7, 0, 7, 0, 7), (1, 1, 8, 8, 8), (0, 9, 2, 9, 4))
POOL6 = ((1, 2, 3, 4, 5, 6), (2, 4, 6, 8, 10, 12), (3, 6, 9, 12, 15, 18), (6, 5, 4, 3, 2, 1),
         (0, 0, 7, 7, 0, 0))

# values of other kinds, each set is used for all 2 x 2 and 2 x 3 matrices
VALUES = (("negative", (-3, 0, 2), True), ("large", (0, BIG, BIG + 1, 3 * BIG), True),
          ("fractions", (0.1, 0.2, 0.3, 0.7), False), ("tiny", (1e-12, 2e-12, 1.0), False),
          ("exact fractions", (0.25, 0.5, 1.75), True), ("mixed", (1, 2.5, -1, 2 ** 33), True),
          ("equal", (7,), True), ("booleans", (False, True), True))


def run(ck):
    q = ck.quick
    grids = [(1, 1, 6), (1, 2, 5), (2, 1, 5), (1, 3, 4), (3, 1, 4), (1, 4, 3), (4, 1, 3),
             (2, 2, 6), (2, 3, 4), (3, 2, 4), (3, 3, 3), (2, 4, 3), (4, 2, 3), (3, 4, 2),
             (4, 3, 2), (4, 4, 2), (2, 5, 2), (5, 2, 2)]
    if not q:
        grids += [(3, 3, 4), (2, 4, 4), (4, 2, 4), (3, 5, 2), (5, 3, 2), (2, 3, 6), (3, 2, 6)]
    ck.bounds = {"grids": "all n x m matrices over the costs 0..k-1 for (n, m, k) in %s" % grids,
                 "rows": "all 4 x 4 matrices of rows from a pool of %d, 5 x 5 of %d, 6 x 6 of 5 (%s)"
                 % (len(POOL4), len(POOL5), "sorted rows" if q else "all; 6 x 6 sorted"),
                 "other costs": "all 2 x 2, 2 x 3, 3 x 2 matrices over %d sets of costs" % len(VALUES),
                 "reuse": "all sequences of 3 matrices from a pool of 12 on one solver"}
    for n, m, k in grids:
        head = max(1, n * m - (7 if k <= 3 else 5))
        for pre in itertools.product(range(k), repeat=head):
            key = ("grid", n, m, k, pre)
            if not ck.want(key):
                continue
            with ck.case(key, "grid %d x %d" % (n, m)):
                solver = Munkres()
                for post in itertools.product(range(k), repeat=n * m - head):
                    v = pre + post
                    judge(ck, solver, [list(v[i * m:i * m + m]) for i in range(n)])
    # larger ones made of rows
    for pool, n in ((POOL4, 4), (POOL5, 5), (POOL6, 6)):
        combos = itertools.product(pool, repeat=2)
        for two in combos:
            key = ("rows", n, two)
            if not ck.want(key):
                continue
            with ck.case(key, "rows of %d" % n):
                solver = Munkres()
                if q or n == 6:
                    tails = itertools.combinations_with_replacement(pool, n - 2)
                else:
                    tails = itertools.product(pool, repeat=n - 2)
                for tail in tails:
                    rows = two + tail
                    judge(ck, solver, [list(r) for r in rows])
                    if n < 6:
                        # without the last row, and without the last column
                        judge(ck, solver, [list(r) for r in rows[:-1]])
                        judge(ck, solver, [list(r[:-1]) for r in rows])
    # other costs
    for name, values, exact in VALUES:
        for n, m in ((1, 1), (2, 2), (2, 3), (3, 2)) + (() if q else ((3, 3),)):
            if n * m == 9 and len(values) > 3:
                continue
            for pre in itertools.product(values, repeat=min(2, n * m)):
                key = ("values", name, n, m, pre)
                if not ck.want(key):
                    continue
                with ck.case(key, "costs: " + name):
                    solver = Munkres()
                    for post in itertools.product(values, repeat=n * m - len(pre)):
                        v = pre + post
                        judge(ck, solver, [list(v[i * m:i * m + m]) for i in range(n)], exact)
    # one solver for several matrices: each answer is that of a new solver
    pool = [[[1]], [[2, 1]], [[1], [0]], [[1, 2], [2, 4]], [[0, 0], [0, 0]], [[3, 1, 2], [1, 2, 3]],
            [[1, 2, 3], [2, 4, 6], [3, 6, 9]], [[5, 0], [0, 0], [1, 1]], [[-1, -2], [-2, -1]],
            [[0.5, 0.25], [1, 2]], [list(r) for r in POOL4[1:5]], [list(r[:3]) for r in POOL4[4:9]]]
    alone = None
    for seq in itertools.product(range(len(pool)), repeat=3):
        key = ("reuse", seq)
        if not ck.want(key):
            continue
        with ck.case(key, "reuse"):
            if alone is None:
                alone = [judge(ck, Munkres(), m) for m in pool]
            solver = Munkres()
            results = []
            for i in seq:
                results.append(judge(ck, solver, pool[i]))
            for i, res in zip(seq, results):
                eq(res, alone[i], "answers do not depend on earlier matrices",
                   "%r of %r" % (pool[i], [pool[x] for x in seq]))
    extras(ck)


def extras(ck):
    """conversion of profits, padding and printing"""
    shapes = [(n, m) for n in range(1, 4) for m in range(1, 4)]
    for n, m in shapes:
        for k in (2, 3):
            if n * m > (9 if k == 2 else 6):
                continue
            key = ("extras", n, m, k)
            if not ck.want(key):
                continue
            with ck.case(key, "profits, padding, printing"):
                for v in itertools.product((0, 12, -3)[:k], repeat=n * m):
                    ck.step()
                    matrix = [list(v[i * m:i * m + m]) for i in range(n)]
                    ctx = repr(matrix)
                    for make in (make_cost_matrix, Munkres.make_cost_matrix):
                        got = make(matrix, lambda x: 100 - x)
                        eq(got, [[100 - x for x in r] for r in matrix], "costs from profits", ctx)
                    best = Munkres().compute(got)
                    most = -least([[-x for x in r] for r in matrix])
                    eq(sum(matrix[r][c] for r, c in best), most, "greatest total profit", ctx)
                    for pad in (0, 9):
                        size = max(n, m)
                        want = [r + [pad] * (size - m) for r in matrix]
                        want += [[pad] * size for i in range(size - n)]
                        got = Munkres().pad_matrix(matrix, pad)
                        eq(got, want, "padded matrix", ctx)
                        ok(all(a is not b for a in got for b in matrix), "padding copies", ctx)
                    eq(matrix, [list(v[i * m:i * m + m]) for i in range(n)],
                       "the matrix is left alone", ctx)
                    _, text = script.capture(print_matrix, matrix, "title")
                    lines = text.splitlines()
                    eq(lines[0], "title", "printed title", ctx)
                    eq([[int(x) for x in l.strip("[]").split(",")] for l in lines[1:]], matrix,
                       "printed matrix", ctx + "\n" + text)
                    eq(len(set(len(l) for l in lines[1:])), 1, "columns line up", ctx + "\n" + text)
