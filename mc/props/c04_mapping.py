# -*- coding: utf-8 -*-
"""
Many-to-many alignment histories, and deep copies taken anywhere in a history.
"""
import collections
import copy
import itertools

from daeso.pair import Pair
from daeso.pgc.graphpair import GraphMapping, GraphMatching
from mc.core import eq, ok, Mismatch
from mc import fx
from mc.props import c03_matching as c03


def m_apply(model, op):
    if op[0] == "add":
        model[op[1], op[2]] = op[3]
        return False
    if (op[1], op[2]) in model:
        del model[op[1], op[2]]
        return False
    return True


def judge(gp, model, S, T, R, ctx):
    want = sorted((s, t, r) for (s, t), r in model.items())
    eq(fx.aligned(gp), want, "alignments differ from the model", ctx)
    eq(len(gp), len(want), "alignment count", ctx)
    for s in S:
        for t in T:
            eq(gp.get_align(Pair(s, t)), model.get((s, t)), "relation lookup", (ctx, s, t))
    for k in range(1, len(R) + 1):
        for rels in itertools.combinations(R, k):
            eq(sorted((n.source, n.target, r) for n, r in gp.alignments(relations=rels)),
               [w for w in want if w[2] in rels], "filter by relation", (ctx, rels))
    used = set(s for s, t, r in want) | set(t for s, t, r in want)
    eq(sorted(gp.nodes()), sorted(used), "nodes known to the pair", ctx)


def snapshot(gp):
    return (fx.aligned(gp), sorted(gp.nodes()), len(gp), fx.elem_value(gp.get_meta_data()))


def run(ck):
    A, B, C = "n0", "n1", "n2"
    worlds = [
        ("same-ids-2x2", (A, B), (A, B), ("equals", "restates")),
        ("disjoint-2x2", (A, B), ("m0", "m1"), ("equals", "restates")),
        ("shifted-2x3", (A, B), (B, A, C), ("equals",)),
        ("same-ids-3x3", (A, B, C), (A, B, C), ("equals",)),
    ]
    if not ck.quick:
        worlds += [
            ("same-ids-2x3-2rel", (A, B), (A, B, C), ("equals", "restates")),
            ("disjoint-3x3", (A, B, C), ("m0", "m1", "m2"), ("equals",)),
            ("same-ids-4x3", (A, B, C, "n3"), (A, B, C), ("equals",)),
            ("same-ids-3x3-2rel", (A, B, C), (A, B, C), ("equals", "restates")),
        ]
    ck.bounds["reachable-state search, many-to-many"] = [w[0] for w in worlds]
    for name, S, T, R in worlds:
        ops = c03.alphabet(S, T, R)
        seen = {frozenset(): ()}
        queue = collections.deque([frozenset()])
        while queue:
            st = queue.popleft()
            hist = seen[st]
            mine = ck.want((name, hist))
            if mine:
                ck.state((name, sorted(st)))
            for op in ops:
                model = dict(st)
                raised = m_apply(model, op)
                nst = frozenset(model.items())
                if nst not in seen:
                    seen[nst] = hist + (op,)
                    queue.append(nst)
                if not mine:
                    continue
                with ck.case((name, hist), name):
                    gp = fx.mem_pair(cls=GraphMapping)
                    for o in hist:
                        c03.r_apply(gp, o)
                    got = c03.r_apply(gp, op)
                    ck.step()
                    ctx = "%s then %r" % (hist, op)
                    eq(got, raised, "removing a missing alignment must fail, others must not", ctx)
                    judge(gp, model, S, T, R, ctx)
                    ck.outcome((name, fx.aligned(gp)))

    # deep copies: history, copy, then a history on one of the two
    S, T, R = (A, B), (A, B), ("equals", "restates")
    ops = c03.alphabet(S, T, R)
    pre = 2 if ck.quick else 3
    post = 2
    metas = [None,
             lambda: fx.elem("graph_meta_data"),
             lambda: fx.elem("graph_meta_data", "text only"),
             lambda: fx.elem("graph_meta_data", None, who="me"),
             lambda: fx.elem("graph_meta_data", None,
                             [fx.elem("comment", "c", [fx.elem("deep", u"\xe9")])])]
    ck.bounds["deep copy"] = "%d operations before, %d after the copy, on either side, %d meta-data shapes" % (pre, post, len(metas))
    for cls in (GraphMapping, GraphMatching):
        for mi, meta in enumerate(metas):
            for d in range(pre + 1):
                if mi and d == pre and ck.quick:
                    continue
                for hist in itertools.product(ops, repeat=d):
                    key = ("copy", cls.__name__, mi, hist)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "deep copy"):
                        gp = fx.mem_pair(cls=cls, meta=meta and meta())
                        for o in hist:
                            c03.r_apply(gp, o)
                        before = snapshot(gp)
                        dup = copy.deepcopy(gp)
                        ck.step(d + 1)
                        ok(isinstance(dup, cls), "copy is of another kind", key)
                        eq(snapshot(dup), before, "deep copy differs from its original", key)
                        eq(snapshot(gp), before, "copying changed the original", key)
                        ok(dup == gp and gp == dup, "deep copy is not equal to its original", key)
                        ok(dup.get_graphs().source is gp.get_graphs().source and
                           dup.get_graphs().target is gp.get_graphs().target,
                           "deep copy must share the graphs", key)
                        ok(dup.get_banks().source is gp.get_banks().source and
                           dup.get_banks().target is gp.get_banks().target,
                           "deep copy must share the graph banks", key)
                        for o1 in ops:
                            for side in (0, 1):
                                a = copy.deepcopy(gp)
                                b = copy.deepcopy(a)
                                x, y = (a, b) if side else (b, a)
                                c03.r_apply(x, o1)
                                if x.get_meta_data() is not None:
                                    x.get_meta_data().set("touched", "1")
                                    for sub in list(x.get_meta_data()):
                                        sub.text = "changed"
                                ck.step()
                                eq(snapshot(y), before, "change leaked through a deep copy",
                                   (key, o1, side))
                                eq(snapshot(gp), before, "change leaked to the original",
                                   (key, o1, side))
                                ck.state((cls.__name__, snapshot(x)))
                                ck.outcome(snapshot(x))
