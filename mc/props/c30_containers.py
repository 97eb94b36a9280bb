# -*- coding: utf-8 -*-
"""C30: ordered dictionary and counter"""

import copy
import itertools
import pickle

from daeso.thirdparty.odict import OrderedDict
from daeso.thirdparty.counter import Counter

from mc.core import eq, ok, raises, multiset


class Sub(OrderedDict):
    pass


# -- ordered dictionary: the model is a list of [key, value] -------------------

class Model(object):

    def __init__(self, items=()):
        self.l = [list(i) for i in items]

    def find(self, k):
        for i in self.l:
            if i[0] == k:
                return i

    def put(self, k, v):
        i = self.find(k)
        if i:
            i[1] = v
        else:
            self.l.append([k, v])

    def items(self):
        return [tuple(i) for i in self.l]


def observe(d, m, cls, ctx):
    items = m.items()
    keys = [k for k, v in items]
    values = [v for k, v in items]
    eq(type(d), cls, "class", ctx)
    eq(len(d), len(items), "length", ctx)
    eq(bool(d), bool(items), "truth", ctx)
    for name, got, want in (
            ("iteration", list(d), keys), ("keys", d.keys(), keys), ("values", d.values(), values),
            ("items", d.items(), items), ("iterkeys", list(d.iterkeys()), keys),
            ("itervalues", list(d.itervalues()), values),
            ("iteritems", list(d.iteritems()), items),
            ("viewkeys", list(d.viewkeys()), keys), ("viewvalues", list(d.viewvalues()), values),
            ("viewitems", list(d.viewitems()), items),
            ("reversed", list(reversed(d)), keys[::-1])):
        eq(got, want, name, ctx)
    eq(repr(d), "%s({%s})" % (cls.__name__, ", ".join("%r: %r" % i for i in items)), "repr", ctx)
    for k in ("a", "b", "c", 1, None):
        i = m.find(k)
        eq((k in d, d.has_key(k), d.get(k), d.get(k, 99)),
           (bool(i), bool(i), i and i[1], i[1] if i else 99), "membership", ctx)
        if i:
            eq(d[k], i[1], "value of %r" % (k,), ctx)
        else:
            raises(KeyError, lambda: d[k], ctx)
    plain = dict(items)
    ok(d == plain and plain == d and not d != plain, "equal to the plain dictionary", ctx)
    eq(dict(d), plain, "conversion to a dictionary", ctx)
    # the lists are the caller's
    d.keys().append(0), d.items().append(0), d.values().append(0)


def copies(d, m, cls, ctx):
    for name, c in (("copy", d.copy()), ("constructor", cls(d)), ("copy.copy", copy.copy(d)),
                    ("copy.deepcopy", copy.deepcopy(d)),
                    ("pickle 0", pickle.loads(pickle.dumps(d, 0))),
                    ("pickle 2", pickle.loads(pickle.dumps(d, 2)))):
        ok(c is not d, name, ctx)
        observe(c, m, cls, "%s\n%s" % (ctx, name))
        # it has a life of its own
        c["new"] = 1
        c.pop(c.keys()[0])
        c["new2"] = 2
        observe(d, m, cls, "%s\nafter changes to its %s" % (ctx, name))


# every operation: (name, on the dictionary, on the model); both get a number
# which is used as the new value, and return what the operation returns
def _setdefault(k):
    def model(m, n):
        if not m.find(k):
            m.put(k, n)
        return m.find(k)[1]
    return ("setdefault %r" % (k,), lambda d, n: d.setdefault(k, n), model)


def _set(k):
    return ("set %r" % (k,), lambda d, n: d.__setitem__(k, n), lambda m, n: m.put(k, n))


def _del(k):
    def model(m, n):
        i = m.find(k)
        if not i:
            return KeyError
        m.l.remove(i)
    return ("del %r" % (k,), lambda d, n: d.__delitem__(k), model)


def _pop(k, default):
    def model(m, n):
        i = m.find(k)
        if not i:
            return n if default else KeyError
        m.l.remove(i)
        return i[1]
    if default:
        return ("pop %r with default" % (k,), lambda d, n: d.pop(k, n), model)
    return ("pop %r" % (k,), lambda d, n: d.pop(k), model)


def _popitem():
    def model(m, n):
        if not m.l:
            return KeyError
        return tuple(m.l.pop())
    return ("popitem", lambda d, n: d.popitem(), model)


def _update(name, arg, order):
    def model(m, n):
        for k in order:
            m.put(k, n)
    return ("update " + name, arg, model)


def _clear():
    def model(m, n):
        del m.l[:]
    return ("clear", lambda d, n: d.clear(), model)


def _again():
    """__init__ on an existing dictionary updates it"""
    return ("init", lambda d, n: d.__init__([("b", n)]), lambda m, n: m.put("b", n))


def _default_none(m, n):
    i = m.find("c")
    if i:
        return i[1]
    m.put("c", None)


CORE = [_set("a"), _set("b"), _set("c"), _del("a"), _del("b"), _popitem(), _setdefault("a")]
ALL = CORE + [
    _del("c"), _pop("a", False), _pop("c", False), _pop("b", True), _setdefault("c"), _clear(),
    _again(),
    _update("pairs", lambda d, n: d.update([("c", n), ("a", n), ("c", n)]), "ca"),
    _update("dict", lambda d, n: d.update({"b": n}), "b"),
    _update("keywords", lambda d, n: d.update(a=n), "a"),
    _update("both", lambda d, n: d.update([("c", n)], b=n), "cb"),
    _update("ordered", lambda d, n: d.update(OrderedDict([("c", n), ("b", n)])), "cb"),
    _update("nothing", lambda d, n: d.update(), ""),
    _set(1), _del(1.0), _set(None),
    ("set 'b' to None", lambda d, n: d.__setitem__("b", None), lambda m, n: m.put("b", None)),
    ("setdefault 'c' without default", lambda d, n: d.setdefault("c"), _default_none),
]
STARTS = (("empty", lambda cls: cls(), ()),
          ("pairs", lambda cls: cls([("b", 10), ("a", 20), ("b", 30)]), (("b", 30), ("a", 20))),
          ("fromkeys", lambda cls: cls.fromkeys("cab", 7), (("c", 7), ("a", 7), ("b", 7))),
          ("fromkeys without value", lambda cls: cls.fromkeys("ba"), (("b", None), ("a", None))))


def apply(d, m, op, n, ctx):
    name, real, model = op
    want = model(m, n)
    if want is KeyError:
        raises(KeyError, lambda: real(d, n), ctx)
    else:
        eq(real(d, n), want, "result of " + name, ctx)


def ordered(ck):
    d_all, d_core = (2, 5) if ck.quick else (3, 7)
    ck.bounds["ordered dictionary"] = (
        "all sequences of up to %d of %d operations and up to %d of %d core operations, from 4 "
        "starts, on the class and a subclass" % (d_all, len(ALL), d_core, len(CORE)))
    for sname, start, items in STARTS:
        for cls in (OrderedDict, Sub):
            for ops, depth in ((ALL, d_all), (CORE, d_core)):
                if cls is Sub and ops is CORE:
                    continue
                for head in itertools.product(range(len(ops)), repeat=min(2, depth)):
                    key = ("odict", sname, cls.__name__, len(ops), head)
                    if not ck.want(key):
                        continue
                    with ck.case(key, "ordered dictionary"):
                        tails = [()]
                        if depth > 2:
                            tails = itertools.product(range(len(ops)), repeat=depth - 2)
                        for tail in tails:
                            history(ck, cls, sname, start, items, [ops[i] for i in head + tail],
                                    len(ops) == len(ALL))


def history(ck, cls, sname, start, items, ops, full):
    d, m = start(cls), Model(items)
    names = [sname]
    if full:
        observe(d, m, cls, sname)
    for n, op in enumerate(ops):
        ck.step()
        names.append(op[0])
        ctx = ", ".join(names)
        apply(d, m, op, n, ctx)
        ck.state(("odict", m.items()))
        if full or n == len(ops) - 1:
            observe(d, m, cls, ctx)
        elif list(d) != [k for k, v in m.l]:
            eq(list(d), [k for k, v in m.l], "iteration", ctx)
    if full:
        copies(d, m, cls, ctx)
    ck.outcome(m.items())


# -- counter ------------------------------------------------------------------

class Count(object):
    """model: dictionary of counts"""

    def __init__(self, **c):
        self.c = c

    def add(self, k, n):
        self.c[k] = self.c.get(k, 0) + n


def look(c, m, ctx):
    want = m.c
    eq(dict(c), want, "counts", ctx)
    eq(len(c), len(want), "length", ctx)
    eq(sorted(c.keys()), sorted(want), "elements", ctx)
    for k in ("a", "b", "c", "zz", 0):
        eq((c[k], k in c, c.get(k)), (want.get(k, 0), k in want, want.get(k)),
           "count of %r" % (k,), ctx)
    eq(len(c), len(want), "looking up does not add", ctx)
    eq(multiset(c.elements()), multiset(k for k, n in want.items() for _ in range(n)),
       "elements", ctx)
    for n in (None, 0, 1, 2, 3, 5):
        got = c.most_common(n) if n is not None else c.most_common()
        eq(len(got), min(len(want), n) if n is not None else len(want), "most common",
           "%s %s" % (ctx, n))
        ok(len(set(k for k, _ in got)) == len(got) and all(want.get(k) == v for k, v in got),
           "most common are counts", "%s %s\n%r" % (ctx, n, got))
        eq([v for k, v in got], sorted(want.values(), reverse=True)[:len(got)],
           "most common first", "%s %s" % (ctx, n))
    eq(eval(repr(c), {"Counter": lambda x=(): dict(x)}), want, "repr", ctx)
    for name, d in (("copy", c.copy()), ("pickle", pickle.loads(pickle.dumps(c, 2))),
                    ("copy.copy", copy.copy(c)), ("constructor", Counter(c))):
        eq((type(d), dict(d)), (Counter, want), name, ctx)
        d["a"] += 1
        del d["b"]
        eq(dict(c), want, "independent of its " + name, ctx)


def _c(name, real, model):
    return (name, real, model)


def _m_add(*adds):
    def model(m):
        for k, n in adds:
            m.add(k, n)
    return model


def _m_set(k, n):
    def model(m):
        m.c[k] = n
    return model


def _m_del(k):
    def model(m):
        m.c.pop(k, None)
    return model


def _m_pop(k):
    def model(m):
        return m.c.pop(k, "absent")
    return model


def _m_setdefault(k, n):
    def model(m):
        return m.c.setdefault(k, n)
    return model


def _m_double(m):
    for k in m.c:
        m.c[k] *= 2


def _m_plus(m):
    for k in "ab":
        m.add(k, 1)
    for k in list(m.c):
        if m.c[k] <= 0:
            del m.c[k]


COPS = [
    _c("set a 2", lambda c: c.__setitem__("a", 2), _m_set("a", 2)),
    _c("set b -1", lambda c: c.__setitem__("b", -1), _m_set("b", -1)),
    _c("set c 0", lambda c: c.__setitem__("c", 0), _m_set("c", 0)),
    _c("a += 1", lambda c: c.__setitem__("a", c["a"] + 1), _m_add(("a", 1))),
    _c("del a", lambda c: c.__delitem__("a"), _m_del("a")),
    _c("del c", lambda c: c.__delitem__("c"), _m_del("c")),
    _c("pop b", lambda c: c.pop("b", "absent"), _m_pop("b")),
    _c("setdefault c", lambda c: c.setdefault("c", 4), _m_setdefault("c", 4)),
    _c("update string", lambda c: c.update("abb"), _m_add(("a", 1), ("b", 2))),
    _c("update iterator", lambda c: c.update(iter(["c", "c"])), _m_add(("c", 2))),
    _c("update mapping", lambda c: c.update({"a": -2, "c": 3}), _m_add(("a", -2), ("c", 3))),
    _c("update counter", lambda c: c.update(Counter(b=2)), _m_add(("b", 2))),
    _c("update ordered", lambda c: c.update(OrderedDict([("c", 1), ("b", -1)])),
       _m_add(("c", 1), ("b", -1))),
    _c("update keywords", lambda c: c.update(a=1, b=3), _m_add(("a", 1), ("b", 3))),
    _c("update both", lambda c: c.update("ac", c=2), _m_add(("a", 1), ("c", 3))),
    _c("update empty", lambda c: c.update(""), _m_add()),
    _c("update nothing", lambda c: c.update(), _m_add()),
    _c("update itself", lambda c: c.update(c), _m_double),
    _c("clear", lambda c: c.clear(), lambda m: m.c.clear()),
]
CSTARTS = (("empty", lambda: Counter(), {}), ("string", lambda: Counter("abab"), dict(a=2, b=2)),
           ("mapping", lambda: Counter({"a": -1, "c": 2}), dict(a=-1, c=2)),
           ("keywords", lambda: Counter(b=0, c=1), dict(b=0, c=1)),
           ("both", lambda: Counter(["a", "b"], a=2), dict(a=3, b=1)))

OPS = (("+", lambda a, b: a + b, lambda x, y: x + y), ("-", lambda a, b: a - b, lambda x, y: x - y),
       ("|", lambda a, b: a | b, max), ("&", lambda a, b: a & b, min))


def counters(ck):
    depth = 3 if ck.quick else 4
    ck.bounds["counter"] = ("all sequences of up to %d of %d operations from 5 starts; arithmetic on "
                            "all pairs of counters over three elements with counts absent, %s"
                            % (depth, len(COPS), "-1, 0, 1, 2" if ck.quick else "-2..3"))
    for sname, start, items in CSTARTS:
        for head in itertools.product(range(len(COPS)), repeat=2):
            key = ("counter", sname, head)
            if not ck.want(key):
                continue
            with ck.case(key, "counter"):
                for tail in itertools.product(range(len(COPS)), repeat=depth - 2):
                    c, m = start(), Count(**items)
                    names = [sname]
                    look(c, m, sname)
                    for i in head + tail:
                        name, real, model = COPS[i]
                        names.append(name)
                        ctx = ", ".join(names)
                        ck.step()
                        eq(real(c), model(m), "result of " + name, ctx)
                        eq(dict(c), m.c, "counts", ctx)
                        ck.state(("counter", sorted(m.c.items())))
                    look(c, m, ctx)
                    ck.outcome(sorted(m.c.items()))
    counts = (None, -1, 0, 1, 2) if ck.quick else (None, -2, -1, 0, 1, 2, 3)
    every = list(itertools.product(counts, repeat=3))
    for left in every:
        key = ("arithmetic", left)
        if not ck.want(key):
            continue
        with ck.case(key, "arithmetic"):
            x = dict((k, n) for k, n in zip("abc", left) if n is not None)
            for right in every:
                y = dict((k, n) for k, n in zip("abc", right) if n is not None)
                a, b = Counter(x), Counter(y)
                ck.step()
                for name, real, model in OPS:
                    ctx = "%r %s %r" % (x, name, y)
                    got = real(a, b)
                    want = dict((k, model(x.get(k, 0), y.get(k, 0))) for k in set(x) | set(y))
                    want = dict((k, n) for k, n in want.items() if n > 0)
                    eq((type(got), dict(got)), (Counter, want), "arithmetic", ctx)
                    ok(got is not a and got is not b, "a new counter", ctx)
                    eq((dict(a), dict(b)), (x, y), "operands are left alone", ctx)
                    ck.outcome((name, sorted(got.items())))
            # nothing but counters
            for other in ({"a": 1}, "a", ["a"], 1, None):
                for name, real, model in OPS:
                    raises(TypeError, lambda: real(a, other), "%r %s %r" % (x, name, other))
            raises(NotImplementedError, lambda: Counter.fromkeys(x), "fromkeys")


def run(ck):
    ordered(ck)
    counters(ck)
