# -*- coding: utf-8 -*-
"""
One-to-one alignment histories.

Explicit-state search: every transition calls the real add/delete operation on
a fresh graph pair brought to the state by replaying a shortest history; the
reference is a plain dict source -> (target, relation).  A second, stateless
pass runs all histories up to a depth without merging states, so that anything
hidden in the object (order, residue) gets a chance to show.
"""
import collections
import itertools

from daeso.pair import Pair
from daeso.pgc.graphpair import GraphMatching
from mc.core import eq, ok, Mismatch
from mc import fx


def m_apply(model, op):
    """reference: model maps source to (target, relation); returns raised?"""
    if op[0] == "add":
        s, t, r = op[1:]
        for s2 in [s2 for s2, (t2, _) in model.items() if t2 == t]:
            del model[s2]
        model[s] = (t, r)
        return False
    s, t = op[1:]
    if s in model and model[s][0] == t:
        del model[s]
        return False
    return True


def r_apply(gp, op):
    if op[0] == "add":
        gp.add_align(Pair(op[1], op[2]), op[3])
        return False
    try:
        gp.del_align(Pair(op[1], op[2]))
    except Exception:
        return True
    return False


def judge(gp, model, S, T, R, ctx):
    want = sorted((s, t, r) for s, (t, r) in model.items())
    eq(fx.aligned(gp), want, "alignments differ from the model", ctx)
    eq(len(gp), len(want), "alignment count", ctx)
    back = dict((t, s) for s, (t, r) in model.items())
    for s in S:
        eq(gp.get_aligned_target_node(s), model.get(s, (None,))[0],
           "aligned target lookup", (ctx, s))
        for t in T:
            got = gp.get_align(Pair(s, t))
            eq(got, model[s][1] if model.get(s, (None,))[0] == t else None,
               "relation lookup", (ctx, s, t))
    for t in T:
        eq(gp.get_aligned_source_node(t), back.get(t), "aligned source lookup", (ctx, t))
    for k in range(1, len(R) + 1):
        for rels in itertools.combinations(R, k):
            eq(sorted((n.source, n.target, r) for n, r in gp.alignments(relations=rels)),
               [w for w in want if w[2] in rels], "filter by relation", (ctx, rels))
            eq(sorted((n.source, n.target, r) for n, r in gp.alignments_iter(relations=rels)),
               [w for w in want if w[2] in rels], "iterate by relation", (ctx, rels))
    used = set(s for s, t, r in want) | set(t for s, t, r in want)
    eq(sorted(gp.nodes()), sorted(used), "nodes known to the pair", ctx)


def judge_roots(gp, model, S, T, ctx):
    """whether the roots are aligned, for every node as root and without root"""
    graphs = gp.get_graphs()
    for s in S + (None,):
        for t in T + (None,):
            graphs.source.root, graphs.target.root = s, t
            eq(bool(gp.roots_aligned()), s in model and model[s][0] == t,
               "alignment of the roots", (ctx, s, t))
    graphs.source.root = graphs.target.root = None


def build(hist):
    gp = fx.mem_pair(cls=GraphMatching)
    model = {}
    for op in hist:
        r_apply(gp, op)
        m_apply(model, op)
    return gp, model


def alphabet(S, T, R):
    return ([("add", s, t, r) for r in R for s in S for t in T] +
            [("del", s, t) for s in S for t in T])


def run(ck):
    A, B, C, D = "n0", "n1", "n2", "n3"
    worlds = [
        # (name, source ids, target ids, relations)
        ("same-ids-3x3", (A, B, C), (A, B, C), ("equals", "restates")),
        ("disjoint-3x3", (A, B, C), ("m0", "m1", "m2"), ("equals", "restates")),
        ("shifted-3x3", (A, B, C), (B, C, D), ("equals", "restates")),
        ("mixed-types-3x3", (0, 1, "x"), (1, 0, ""), ("equals", "")),
        ("same-ids-4x4", (A, B, C, D), (A, B, C, D), ("equals",)),
    ]
    if not ck.quick:
        worlds += [
            ("same-ids-4x4-2rel", (A, B, C, D), (A, B, C, D), ("equals", "restates")),
            ("disjoint-4x4-2rel", (A, B, C, D), ("m0", "m1", "m2", "m3"), ("equals", "restates")),
            ("shifted-4x4-2rel", (A, B, C, D), (B, C, D, "n4"), ("equals", "restates")),
            ("same-ids-5x5", (A, B, C, D, "n4"), (A, B, C, D, "n4"), ("equals",)),
        ]
    ck.bounds["reachable-state search"] = [w[0] for w in worlds]
    for name, S, T, R in worlds:
        ops = alphabet(S, T, R)
        # model states are closed under the operations; enumerate them all by
        # breadth-first search over the model, check every transition on code
        seen = {frozenset(): ()}
        queue = collections.deque([frozenset()])
        while queue:
            st = queue.popleft()
            hist = seen[st]
            mine = ck.want((name, hist))
            if mine:
                ck.state((name, sorted(map(repr, st))))
            for op in ops:
                model = dict(dict(st))
                raised = m_apply(model, op)
                nst = frozenset(model.items())
                if nst not in seen:
                    seen[nst] = hist + (op,)
                    queue.append(nst)
                if not mine:
                    continue
                with ck.case((name, hist), name):
                    gp, _ = build(hist)
                    got = r_apply(gp, op)
                    ck.step()
                    ctx = "%s then %r" % (hist, op)
                    eq(got, raised, "removing a missing alignment must fail, others must not", ctx)
                    judge(gp, model, S, T, R, ctx)
                    judge_roots(gp, model, S, T, ctx)
                    ck.outcome((name, fx.aligned(gp)))

    # all histories, no merging
    S, T, R = (A, B), (A, B), ("equals", "restates")
    ops = alphabet(S, T, R)
    depth = 4 if ck.quick else 6
    ck.bounds["unmerged histories"] = "depth %d over %d operations" % (depth, len(ops))
    for prefix in itertools.product(ops, repeat=2):
        key = ("unmerged", prefix)
        if not ck.want(key):
            continue
        for d in range(depth - 1):
            for rest in itertools.product(ops, repeat=d):
                hist = prefix + rest
                with ck.case(key, "unmerged"):
                    gp, model = fx.mem_pair(cls=GraphMatching), {}
                    for op in hist:
                        want = m_apply(model, op)
                        eq(r_apply(gp, op), want, "failure of removal", hist)
                        ck.step()
                    judge(gp, model, S, T, R, hist)
                    ck.state(("unmerged", gp.edges(), gp.nodes()))
