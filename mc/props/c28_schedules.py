# -*- coding: utf-8 -*-
"""C28: all schedules of concurrent calls of one cache"""

import copy
import itertools
import sys
import traceback

from mc import sched
sys.meta_path.insert(0, sched.Importer("daeso.thirdparty.GenericCache"))

from daeso.thirdparty import GenericCache as package
from daeso.thirdparty.GenericCache import decorators

from mc.cachelib import Clock, Model, Missing, control_time
from mc.core import eq, ok, Mismatch

GenericCache = package.GenericCache
MODULES = [m for name, m in sorted(sys.modules.items())
           if m is not None and name.startswith("daeso.thirdparty.GenericCache")]
CLOCK = Clock()
control_time(MODULES, CLOCK)
sched.control_locks(MODULES)


def guard(func):
    try:
        return ("value", func())
    except FAILS as e:
        return ("raises", type(e).__name__)


# what a call, or the function it calls, may raise
FAILS = (KeyError, ZeroDivisionError, SystemExit, KeyboardInterrupt, GeneratorExit, StopIteration)
KINDS = dict((k.__name__, k) for k in FAILS)


def code_op(cache, op, tag):
    """op on the cache, as a function of the run and its thread"""
    name = op[0]

    def call(run, th):
        c = cache[0]
        if name == "ins":
            return guard(lambda: c.insert(op[1], tag))
        if name == "set":
            return guard(lambda: c.__setitem__(op[1], tag))
        if name == "fetch":
            return guard(lambda: c.fetch(op[1]))
        if name == "get":
            return guard(lambda: c[op[1]])
        if name in ("gen", "memo"):
            made = []

            def make():
                run.point(th)
                made.append(1)
                run.point(th)
                return tag
            if name == "gen":
                res = guard(lambda: c.fetch_with_generator(op[1], make))
            else:
                make.__name__ = "f"
                res = guard(decorators.cached(c, lambda f: op[1])(make))
            return res, len(made)
        if name == "fail":
            # what is made, is not made
            made = []

            def stop():
                run.point(th)
                made.append(1)
                raise KINDS[op[2]]("stop")
            return guard(lambda: c.fetch_with_generator(op[1], stop)), len(made)
        if name == "nested":
            # the generator uses the same cache
            def outer():
                run.point(th)
                return c.fetch_with_generator(op[2], lambda: tag + "i") + "o"
            return guard(lambda: c.fetch_with_generator(op[1], outer))
        if name == "del":
            return guard(lambda: c.remove(op[1]))
        if name == "collect":
            return guard(c.collect)
        if name == "clear":
            return guard(c.clear)
        if name == "reconf":
            return guard(lambda: c.reconfigure(*op[1:]))
        if name == "size":
            return guard(lambda: len(c))
        if name == "keys":
            return guard(lambda: sorted(map(str, c.keys())))
        if name == "has":
            return guard(lambda: op[1] in c)
        raise ValueError(name)
    return call


def model_op(m, op, tag):
    name = op[0]
    if name in ("ins", "set"):
        return guard(lambda: m.insert(op[1], tag))
    if name in ("fetch", "get"):
        return guard(lambda: m.fetch(op[1]))
    if name in ("gen", "memo"):
        v, new = m.generate(op[1], tag)
        return ("value", v), int(new)
    if name == "fail":
        try:
            return ("value", m.lookup(op[1])), 0
        except Missing:
            return ("raises", op[2]), 1
    if name == "nested":
        try:
            return ("value", m.lookup(op[1]))
        except Missing:
            v = m.generate(op[2], tag + "i")[0] + "o"
            m.insert(op[1], v)
            return ("value", v)
    if name == "del":
        return guard(lambda: m.remove(op[1]))
    if name == "collect":
        return guard(m.collect)
    if name == "clear":
        return guard(m.clear)
    if name == "reconf":
        return guard(lambda: m.reconfigure(*op[1:]))
    if name == "size":
        return ("value", len(m.order))
    if name == "keys":
        return ("value", sorted(m.order))
    if name == "has":
        return ("value", op[1] in m.order)
    raise ValueError(name)


def prepare(config, setup):
    """real cache and model after the setup"""
    CLOCK.now = 1000.0
    c = GenericCache(**dict((n, v) for n, v in zip(("maxsize", "expiry", "default_fail"), config)
                            if v is not None))
    m = Model(*config)
    for i, op in enumerate(setup):
        if op[0] == "tick":
            CLOCK.now += op[1]
            m.now += op[1]
        else:
            code_op([c], op, "s%d" % i)(None, None)
            model_op(m, op, "s%d" % i)
    return c, m


def interleavings(counts):
    """all orders of (thread, n-th call) which keep the order of each thread"""
    def rec(left):
        if not any(left):
            yield ()
            return
        for t, n in enumerate(left):
            if n:
                rest = left[:t] + (n - 1,) + left[t + 1:]
                for tail in rec(rest):
                    yield ((t, counts[t] - n),) + tail
    return list(rec(tuple(counts)))


class Scenario(object):

    def __init__(self, ck, key):
        self.ck = ck
        self.key = key
        self.config, self.setup, self.calls = key[1], key[2], key[3]
        c, base = prepare(self.config, self.setup)
        self.allowed = []
        for order in interleavings([len(ops) for ops in self.calls]):
            m = base.copy()
            res = [[None] * len(ops) for ops in self.calls]
            for t, i in order:
                res[t][i] = model_op(m, self.calls[t][i], "t%d.%d" % (t, i))
            vals = dict((k, v[0]) for k, v in m.entries.items())
            self.allowed.append((order, res, (len(m.order), sorted(m.order), list(m.order)),
                                 vals))
        self.limit = self.config[0]

    def make(self):
        c, m = prepare(self.config, self.setup)
        self.cache = c
        return [[code_op([c], op, "t%d.%d" % (t, i)) for i, op in enumerate(ops)]
                for t, ops in enumerate(self.calls)]

    def judge(self, run):
        ck = self.ck
        ck.step(run.steps)
        sch = [d[2] for d in run.decisions]
        ctx = "%r\nschedule %r" % (self.key, sch)
        if run.aborted:
            raise Mismatch("concurrent calls come to an end: " + run.aborted, ctx)
        for t in run.threads:
            if t.error:
                raise Mismatch("a concurrent call fails", ctx + "\n" + "".join(
                    traceback.format_exception(*t.error)))
        res = [t.results for t in run.threads]
        spans = [t.spans for t in run.threads]
        lock = [v for v in vars(self.cache).values() if isinstance(v, sched.SchedLock)]
        for l in lock:
            ok(not l.locked(), "no lock is held when no call is in progress", ctx)
        if self.limit and not any(op[0] == "reconf" for ops in self.calls for op in ops):
            ok(len(self.cache) <= self.limit, "size limit when no call is in progress", ctx)
        final, vals = observe(self.cache)
        for order, want, want_final, want_vals in self.allowed:
            if want == res and want_final == final and want_vals == vals and \
                    consistent(order, spans):
                break
        else:
            raise Mismatch("concurrent calls act as if made one at a time",
                           "%s\nresults: %r\nsize, keys, order of use: %r\nvalues: %r\n"
                           "required, one of: %r" % (ctx, res, final, vals,
                                                     [a[1:4] for a in self.allowed][:8]))
        ck.outcome((self.key, res, final))
        ck.state((self.key, sch))


def observe(c):
    """size, keys, keys in the order of use, values"""
    size, keys = len(c), sorted(map(str, c.keys()))
    d = copy.deepcopy(c)
    d.reconfigure()
    order, left = [], set(keys)
    for n in range(size - 1, 0, -1):
        d.reconfigure(maxsize=n)
        now = set(map(str, d.keys()))
        order += sorted(left - now)
        left = now
    c.expiry = None
    return (size, keys, order + sorted(left)), dict((k, c.fetch(k)) for k in keys)


def consistent(order, spans):
    """no call precedes one that was over before it began"""
    for i, (t, n) in enumerate(order):
        for u, m in order[i + 1:]:
            if spans[u][m][1] <= spans[t][n][0]:
                return False
    return True


CALLS = [("ins", "a"), ("ins", "b"), ("fetch", "a"), ("gen", "a"), ("gen", "b"), ("nested", "a", "b"),
         ("del", "a"), ("collect",), ("clear",), ("reconf", 1, None), ("size",), ("keys",),
         ("has", "a")] + [("fail", "a", k) for k in ("KeyError", "SystemExit")]
FAILING = [("fail", "a", k) for k in sorted(KINDS)]
SETUPS = [
    ("empty", (1, None, None), ()),
    ("one", (1, None, None), (("ins", "a"),)),
    ("full", (2, None, None), (("ins", "a"), ("ins", "c"))),
    ("expired", (2, 10, True), (("ins", "a"), ("tick", 11), ("ins", "c"))),
    ("unlimited", (None, None, None), (("ins", "c"), ("ins", "a"))),
]
# sequences of two calls
SEQS = [(("ins", "a"), ("fetch", "a")), (("gen", "a"), ("gen", "b")), (("ins", "b"), ("ins", "a")),
        (("fetch", "a"), ("keys",)), (("del", "a"), ("ins", "b")), (("memo", "a"), ("size",)),
        (("set", "a"), ("get", "c"))]
THREE = [("ins", "a"), ("gen", "b"), ("fetch", "a"), ("del", "a"), ("keys",), ("reconf", 1, None)]


def run(ck):
    b2, bseq, b3 = (2, 1, 1) if ck.quick else (3, 2, 2)
    ck.bounds = {"two calls": "all pairs of %d calls in %d starting states, at most %d preemptions "
                              "at any statement of the cache (1 in "
                              "four of the states)" % (len(CALLS), len(SETUPS), b2),
                 "a failing function": "%d kinds of failure, next to three calls, 1 preemption"
                                       % len(FAILING),
                 "two sequences": "all pairs of %d sequences of two calls, at most %d preemptions"
                                  % (len(SEQS), bseq),
                 "three threads": "all triples of %d calls, at most %d preemptions"
                                  % (len(THREE), b3)}
    todo = []
    for name, config, setup in SETUPS:
        for x, y in itertools.combinations_with_replacement(CALLS, 2):
            todo.append(("two calls", config, setup, ((x,), (y,)),
                         b2 if name == "full" or not ck.quick else 1))
        if not ck.quick or name in ("empty", "one"):
            for x, y in itertools.product(FAILING, [("ins", "b"), ("gen", "a"), ("keys",)]):
                todo.append(("a failing function", config, setup, ((x, ("size",)), (y,)), 1))
        for x, y in itertools.combinations_with_replacement(SEQS, 2):
            todo.append(("two sequences", config, setup, (x, y), bseq))
        if name == "full" or not ck.quick:
            for ops in itertools.combinations_with_replacement(THREE, 3):
                todo.append(("three threads", config, setup, tuple((o,) for o in ops), b3))
    for key in todo:
        if not ck.want(key):
            continue
        with ck.case(key, key[0]):
            sc = Scenario(ck, key)
            n, whole = sched.explore(sc.make, key[4], sc.judge)
            ck.traces += n - 1
