# -*- coding: utf-8 -*-
"""
List operations on corpora.

Reference: a plain list holding the very same graph pair objects.  Pass 1 runs
every operation with every small argument from every corpus content of up to
three (four) pairs; since the content is the whole state, this is closed under
histories.  Pass 2 runs unmerged histories, also on corpora derived by slicing,
adding and copying, to expose sharing between corpora.
"""
import copy
import itertools

from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.graphpair import GraphPair
from mc.core import eq, ok, Mismatch
from mc import fx

REL = ["equals", "restates"]
IDX = [-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5]


def make_pairs():
    """p0 and p1 are equal but distinct objects; p2 and p3 differ"""
    out = []
    for n, al in enumerate([(), (), (("n0", "n0", "equals"),), (("n0", "n1", "restates"),)]):
        gp = fx.mem_pair()
        for s, t, r in al:
            gp.add_align(Pair(s, t), r)
        gp.tag = n
        out.append(gp)
    return out


def tags(seq):
    return [getattr(x, "tag", "?") for x in seq]


def corpus_of(objs, rel=REL, meta="m"):
    return ParallelGraphCorpus(list(objs), list(rel), meta and fx.elem("corpus_meta_data", meta))


def catch(f):
    try:
        return ("ok", f())
    except (IndexError, ValueError, TypeError, KeyError), inst:
        return ("exc", inst.__class__.__name__)


def is_corpus(x, ctx):
    ok(isinstance(x, ParallelGraphCorpus), "result is not a corpus", ctx)
    eq(x.get_relations(), sorted(REL), "relations of the result", ctx)
    eq(fx.elem_value(x.get_meta_data()), ("corpus_meta_data", "m", "", [], []), "meta-data of the result", ctx)


def operations(P, small=False):
    """(name, function on corpus, function on list, kind of result)

    kind: 'corpus' result must be a corpus with the same relations and
    meta-data; 'pair' the identical object; 'value' equal; 'self' in-place
    """
    idx = [-2, -1, 0, 1, 2] if small else IDX
    sl = [None, -5, -2, -1, 0, 1, 2, 4] if not small else [None, -1, 1]
    steps = [None, 1, 2, -1, -2] if not small else [None, -1]
    ops = []

    def add(name, fc, fl=None, kind="self"):
        ops.append((name, fc, fl or fc, kind))

    for i in idx:
        add(("get", i), lambda c, i=i: c[i], kind="pair")
        add(("del", i), lambda c, i=i: c.__delitem__(i))
        add(("pop", i), lambda c, i=i: c.pop(i), kind="pair")
        for p in (0, 3):
            add(("set", i, p), lambda c, i=i, p=p: c.__setitem__(i, P[p]))
            add(("insert", i, p), lambda c, i=i, p=p: c.insert(i, P[p]))
    add(("pop",), lambda c: c.pop(), kind="pair")
    add(("reverse",), lambda c: c.reverse())
    add(("reversed",), lambda c: list(reversed(c)), kind="pairs")
    add(("iter",), lambda c: [x for x in c], kind="pairs")
    add(("len",), lambda c: len(c), kind="value")
    add(("clear",), lambda c: c.clear(), lambda l: l.__delitem__(slice(None)))
    for p in range(4):
        add(("append", p), lambda c, p=p: c.append(P[p]))
        add(("remove", p), lambda c, p=p: c.remove(P[p]))
        add(("index", p), lambda c, p=p: c.index(P[p]), kind="value")
        add(("index", p, 1), lambda c, p=p: c.index(P[p], 1), kind="value")
        add(("index", p, 0, 2), lambda c, p=p: c.index(P[p], 0, 2), kind="value")
        add(("count", p), lambda c, p=p: c.count(P[p]), kind="value")
        add(("in", p), lambda c, p=p: P[p] in c, kind="value")
    for n in (-1, 0, 1, 2):
        add(("mul", n), lambda c, n=n: c * n, kind="corpus")
        add(("rmul", n), lambda c, n=n: n * c, kind="corpus")
        add(("imul", n), lambda c, n=n: c.__imul__(n), kind="iop")
    for rev in (False, True):
        add(("sort", rev), lambda c, rev=rev: c.sort(key=lambda x: len(x), reverse=rev))
        add(("sort cmp", rev), lambda c, rev=rev: c.sort(lambda x, y: cmp(len(x), len(y)), reverse=rev))
    for i in sl:
        for j in sl:
            for k in steps:
                s = slice(i, j, k)
                add(("getslice", i, j, k), lambda c, s=s: c[s], kind="corpus")
                add(("delslice", i, j, k), lambda c, s=s: c.__delitem__(s))
                for new in ((), (3,), (0, 2)):
                    add(("setslice", i, j, k, new),
                        lambda c, s=s, new=new: c.__setitem__(s, corpus_of([P[x] for x in new])),
                        lambda l, s=s, new=new: l.__setitem__(s, [P[x] for x in new]))
    short = [-2, -1, 0, 1, 3] if small else [-7, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5]
    for i, j in itertools.product(short, repeat=2):
        # the short forms take another road (no step)
        add(("c[i:j]", i, j), lambda c, i=i, j=j: c[i:j], kind="corpus")
        add(("c[i:]", i), lambda c, i=i: c[i:], kind="corpus")
        add(("c[:j]", j), lambda c, j=j: c[:j], kind="corpus")

        def delshort(c, i=i, j=j):
            del c[i:j]
        add(("del c[i:j]", i, j), delshort)

        def setshort(c, i=i, j=j):
            c[i:j] = corpus_of([P[3], P[0]])

        def setshort_l(l, i=i, j=j):
            l[i:j] = [P[3], P[0]]
        add(("c[i:j]=", i, j), setshort, setshort_l)
    add(("c[:]",), lambda c: c[:], kind="corpus")
    for new in ((), (3,), (0, 2)):
        add(("add", new), lambda c, new=new: c + corpus_of([P[x] for x in new]),
            lambda l, new=new: l + [P[x] for x in new], "corpus")
        add(("iadd", new), lambda c, new=new: c.__iadd__(corpus_of([P[x] for x in new])),
            lambda l, new=new: l.__iadd__([P[x] for x in new]), "iop")
        add(("extend corpus", new), lambda c, new=new: c.extend(corpus_of([P[x] for x in new])),
            lambda l, new=new: l.extend([P[x] for x in new]))
        add(("extend list", new), lambda c, new=new: c.extend([P[x] for x in new]))
        add(("extend generator", new), lambda c, new=new: c.extend(P[x] for x in new))
    add(("add self",), lambda c: c + c, kind="corpus")
    add(("iadd self",), lambda c: c.__iadd__(c), kind="iop")
    add(("extend self",), lambda c: c.extend(c), lambda l: l.extend(list(l)))
    add(("copy.copy",), lambda c: copy.copy(c), lambda l: list(l), "corpus")
    add(("constructor",), lambda c: ParallelGraphCorpus(c, c.get_relations(), c.get_meta_data()),
        lambda l: list(l), "corpus")
    return ops


def refused(P):
    """operations that must fail and leave the corpus as it was"""
    other = lambda: corpus_of([P[2]], ["equals"])
    out = [
        ("append non-pair", lambda c: c.append("x"), TypeError),
        ("append corpus", lambda c: c.append(corpus_of([P[2]])), TypeError),
        ("append None", lambda c: c.append(None), TypeError),
        ("insert non-pair", lambda c: c.insert(0, "x"), TypeError),
        ("add list", lambda c: c + [P[2]], TypeError),
        ("add other relations", lambda c: c + other(), ValueError),
        ("iadd list", lambda c: c.__iadd__([P[2]]), TypeError),
        ("iadd other relations", lambda c: c.__iadd__(other()), ValueError),
        ("remove missing", lambda c: c.remove(fx.mem_pair(sid="zzz")), ValueError),
        ("index missing", lambda c: c.index(fx.mem_pair(sid="zzz")), ValueError),
        ("pop out of range", lambda c: c.pop(9), IndexError),
        ("get out of range", lambda c: c[9], IndexError),
        ("del out of range", lambda c: c.__delitem__(9), IndexError),
        ("set out of range", lambda c: c.__setitem__(9, P[0]), IndexError),
    ]

    def setslice(c, v):
        c[0:1] = v
    for n, v, e in (("list", lambda: [P[2]], TypeError), ("other relations", other, ValueError),
                    ("non-pair", lambda: "x", TypeError)):
        out.append(("short slice = " + n, lambda c, v=v: setslice(c, v()), e))
        out.append(("slice = " + n, lambda c, v=v: c.__setitem__(slice(0, 1, None), v()), e))
        out.append(("stepped slice = " + n, lambda c, v=v: c.__setitem__(slice(0, None, 2), v()), e))
    for n, v in (("string", "x"), ("None", None), ("list", [])):
        out.append(("item = " + n, lambda c, v=v: c.__setitem__(0, v), TypeError))
        out.append(("last item = " + n, lambda c, v=v: c.__setitem__(-1, v), TypeError))
    return out


def judge(c, l, ctx):
    eq([id(x) for x in c], [id(x) for x in l], "content differs from a plain list",
       "%r: tags %r, list %r" % (ctx, tags(c), tags(l)))
    eq(len(c), len(l), "length", ctx)
    is_corpus(c, ctx)


def apply_op(op, c, l, ctx):
    """run op on both; returns the derived corpus/list pair if there is one"""
    name, fc, fl, kind = op
    rc = catch(lambda: fc(c))
    rl = catch(lambda: fl(l))
    if rl[0] == "exc" or rc[0] == "exc":
        eq(rc, rl, "outcome differs from a plain list", ctx)
        judge(c, l, ctx)
        return None
    rc, rl = rc[1], rl[1]
    judge(c, l, ctx)
    if kind == "corpus":
        judge(rc, rl, (ctx, "result"))
        return rc, rl
    elif kind == "iop":
        ok(rc is c, "in-place operation returned another object", ctx)
    elif kind == "pair":
        ok(rc is rl, "wrong pair returned", ctx)
    elif kind == "pairs":
        eq([id(x) for x in rc], [id(x) for x in rl], "wrong pairs returned", ctx)
    elif kind == "value":
        eq(rc, rl, "wrong value returned", ctx)
    return None


def run(ck):
    P = make_pairs()
    ops = operations(P)
    maxlen = 3 if ck.quick else 4
    contents = [s for n in range(maxlen + 1) for s in itertools.product(range(4), repeat=n)]
    if ck.quick:
        contents = [s for s in contents if len(s) < 3 or 3 not in s]
    ck.bounds["contents x operations"] = "%d x %d" % (len(contents), len(ops))
    for s in contents:
        key = ("single", s)
        if not ck.want(key):
            continue
        ck.state(key)
        for op in ops:
            with ck.case(key, "single operations"):
                objs = [P[i] for i in s]
                c, l = corpus_of(objs), list(objs)
                apply_op(op, c, l, (s, op[0]))
                ck.step()
                ck.outcome((op[0], tags(c)))
                ck.state(("content", tags(c)))
        for name, f, exc in refused(P):
            with ck.case(key, "refused operations"):
                objs = [P[i] for i in s]
                c = corpus_of(objs)
                if not s and name == "last item = list":
                    pass
                try:
                    f(c)
                except (exc, IndexError):
                    pass
                except Exception, inst:
                    raise Mismatch("refused with another error", "%r %s %r" % (s, name, inst))
                else:
                    raise Mismatch("operation is not refused", "%r %s" % (s, name))
                ck.step()
                judge(c, objs, (s, name))

        # deep copies are equal, and independent in both directions
        with ck.case(key, "deep copy"):
            for side in (0, 1):
                objs = [copy.deepcopy(P[i]) for i in s]
                c = corpus_of(objs)
                before = [fx.aligned(x) for x in c]
                d = copy.deepcopy(c)
                is_corpus(d, key)
                ok(d == c and c == d, "deep copy is not equal", key)
                eq([fx.aligned(x) for x in d], before, "deep copy has other alignments", key)
                ok(not set(map(id, d)) & set(map(id, c)), "deep copy shares graph pairs", key)
                ok(not [1 for x, y in zip(c, d)
                        if x.get_source_graph() is not y.get_source_graph() or
                        x.get_banks().target is not y.get_banks().target],
                   "deep copy must share graphs and banks", key)
                x, y = (c, d) if side else (d, c)
                for gp in x:
                    gp.add_align(Pair("n8", "n9"), "equals")
                    gp.get_meta_data().text = "changed"
                x.get_meta_data().text = "changed"
                x.set_relations(["other"])
                x.append(P[0])
                x.reverse()
                eq([fx.aligned(g) for g in y], before, "change leaked through a deep copy", key)
                eq([g.get_meta_data().text for g in y], [None] * len(y), "pair meta-data leaked", key)
                is_corpus(y, key)
                ck.step()

    # set_relations / constructor do not touch what the caller holds
    for rs in itertools.chain(*[itertools.permutations(["c", "a", "b"], n) for n in range(4)]):
        for kind in (list, tuple):
            key = ("relations", rs, kind.__name__)
            if not ck.want(key):
                continue
            with ck.case(key, "relations"):
                given = kind(rs)
                c = ParallelGraphCorpus([P[0]], given)
                eq(c.get_relations(), sorted(rs), "relations", key)
                eq(given, kind(rs), "list of the caller was changed", key)
                d = ParallelGraphCorpus([P[0]])
                d.set_relations(given)
                eq(d.get_relations(), sorted(rs), "relations", key)
                eq(given, kind(rs), "list of the caller was changed", key)
                e = c[0:1]
                e.set_relations(["z"])
                f = c + c
                f.set_relations(["z"])
                eq(c.get_relations(), sorted(rs), "relations changed through a derived corpus", key)
                ck.step(3)

    # unmerged histories over several corpora: op on the current corpus, or
    # move on to the derived corpus; all corpora ever derived are re-judged
    small = operations(P, small=True)
    names = {}
    pick = []
    for op in small:
        n = op[0][0]
        names[n] = names.get(n, 0) + 1
        if names[n] <= (2 if ck.quick else 4):
            pick.append(op)
    pick.append((("deepcopy",), None, None, "deepcopy"))
    depth = 3
    ck.bounds["unmerged histories"] = "depth %d over %d operations" % (depth, len(pick))
    for o1 in range(len(pick)):
        for o2 in range(len(pick)):
            key = ("history", pick[o1][0], pick[o2][0])
            if not ck.want(key):
                continue
            for o3 in range(len(pick)):
                with ck.case(key, "histories"):
                    objs = [P[0], P[2], P[1]]
                    family = [(corpus_of(objs), list(objs))]
                    for o in (o1, o2, o3):
                        c, l = family[-1]
                        op = pick[o]
                        if op[3] == "deepcopy":
                            d = copy.deepcopy(c)
                            for a, b in zip(c, d):
                                b.tag = a.tag
                            family.append((d, list(d)))
                        else:
                            r = apply_op(op, c, l, (key, pick[o3][0]))
                            if r:
                                family.append(r)
                        ck.step()
                    for c, l in family:
                        judge(c, l, (key, pick[o3][0], "at the end"))
                    ck.state([tags(c) for c, l in family])
