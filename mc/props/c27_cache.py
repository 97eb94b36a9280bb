# -*- coding: utf-8 -*-
"""C27: histories of one cache"""

import itertools
import sys

from daeso.thirdparty import GenericCache as package
from daeso.thirdparty.GenericCache import decorators

from mc.cachelib import Clock, Model, control_time
from mc.core import eq, ok, Mismatch

GenericCache = package.GenericCache
CacheNode = package.CacheNode
MODULES = [m for name, m in sorted(sys.modules.items())
           if m is not None and name.startswith("daeso.thirdparty.GenericCache")]

CLOCK = Clock()
control_time(MODULES, CLOCK)


class Boom(Exception):
    pass


def attempt(func):
    try:
        return ("value", func())
    except (KeyError, Boom), inst:
        return ("raises", inst.__class__.__name__)


class Pair(object):
    """a cache and its model, driven by the same operations"""

    def __init__(self, config, keys):
        self.clock = CLOCK
        self.clock.now = 1000.0
        kw = dict((n, v) for n, v in zip(("maxsize", "expiry", "default_fail"), config)
                  if v is not None)
        self.keys = keys
        self.cache = GenericCache(**kw)
        self.model = Model(*config)
        self.serial = 0
        self.trail = []

    def fresh(self):
        self.serial += 1
        return "v%d" % self.serial

    def do(self, op):
        self.trail.append(op)
        name = op[0]
        c, m = self.cache, self.model
        k = self.keys[op[1]] if len(op) > 1 and isinstance(op[1], int) and name != "tick" else None
        v = self.fresh() if name in ("ins", "set", "node", "gen", "boom") else None
        if name == "ins":
            return self.same(lambda: c.insert(k, v), lambda: m.insert(k, v))
        if name == "set":
            c[k] = v
            m.insert(k, v)
        elif name == "self":
            return self.same(lambda: c.insert(k), lambda: m.insert(k, k))
        elif name == "node":
            return self.same(lambda: c.insert(CacheNode(k, v)), lambda: m.insert(k, v))
        elif name == "fetch":
            return self.same(lambda: c.fetch(k), lambda: m.fetch(k))
        elif name == "get":
            return self.same(lambda: c[k], lambda: m.fetch(k))
        elif name == "fail":
            return self.same(lambda: c.fetch(k, fail=True), lambda: m.fetch(k, True))
        elif name == "default":
            return self.same(lambda: c.fetch(k, False, "dflt"), lambda: m.fetch(k, False, "dflt"))
        elif name == "gen":
            calls = []

            def make(*args, **kw):
                calls.append((args, kw))
                return v
            self.same(lambda: (c.fetch_with_generator(k, make, 1, b=2), bool(calls)),
                      lambda: m.generate(k, v))
            ok(calls in ([], [((1,), {"b": 2})]), "a value is generated once, with the arguments",
               "%r %r" % (self.trail, calls))
        elif name == "boom":
            def fails():
                raise Boom()

            def model():
                value, new = m.copy().generate(k, v)
                if not new:
                    return m.fetch(k)
                m.fetch(k, False)
                raise Boom()
            return self.same(lambda: c.fetch_with_generator(k, fails), model)
        elif name == "del":
            del c[k]
            m.remove(k)
        elif name == "remove":
            return self.same(lambda: c.remove(k), lambda: m.remove(k))
        elif name == "collect":
            return self.same(c.collect, m.collect)
        elif name == "clear":
            return self.same(c.clear, m.clear)
        elif name == "size":
            return self.same(c.size, lambda: len(m.order))
        elif name == "reconf":
            return self.same(lambda: c.reconfigure(*op[1:]), lambda: m.reconfigure(*op[1:]))
        elif name == "tick":
            self.clock.now += op[1]
            m.now += op[1]
        else:
            raise ValueError(name)

    def same(self, code, model):
        got, want = attempt(code), attempt(model)
        eq(got, want, "result of %s" % self.trail[-1][0], "%r" % (self.trail,))

    def observe(self):
        c, m = self.cache, self.model
        ctx = "%r" % (self.trail,)
        eq(sorted(map(str, c.keys())), sorted(map(str, m.order)), "keys of the cache", ctx)
        eq(len(c), len(m.order), "size of the cache", ctx)
        for k in self.keys:
            eq((c.has_key(k), k in c), (k in m.order,) * 2, "presence of a key",
               ctx + " %r" % (k,))
        if m.maxsize:
            ok(len(c) <= m.maxsize, "size limit", ctx)

    def drain(self):
        """shrink the cache step by step: the least recently used goes first"""
        c, m = self.cache, self.model
        for n in range(len(m.order) - 1, 0, -1):
            c.reconfigure(maxsize=n)
            m.reconfigure(maxsize=n)
            eq(sorted(map(str, c.keys())), sorted(map(str, m.order)),
               "the least recently used is evicted first", "%r then shrunk to %d" % (self.trail, n))
        for k in m.order:
            eq(attempt(lambda: c.fetch(k)), attempt(lambda: m.fetch(k)), "remaining value",
               "%r" % (self.trail,))


def canonical(ops):
    """is every key used only after all smaller ones?"""
    top = -1
    for op in ops:
        if len(op) > 1 and op[0] not in ("tick", "reconf"):
            if op[1] > top + 1:
                return False
            top = max(top, op[1])
    return True


def histories(ops, depth):
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            if canonical(h):
                yield h


def per_key(names, n):
    return [(name, k) for name in names for k in range(n)]


def run(ck):
    quick = ck.quick
    full = (per_key(("ins", "fetch", "del", "gen"), 3) +
            [("tick", 5), ("tick", 6), ("collect",), ("clear",), ("reconf", 1, None),
             ("reconf", 2, 10)])
    lru = per_key(("ins", "fetch"), 4) + [("del", 0), ("del", 1)]
    exp = per_key(("set", "get"), 2) + [("tick", 5), ("tick", 6), ("collect",), ("gen", 0)]
    api = (per_key(("ins", "set", "self", "node", "fetch", "get", "fail", "default", "gen", "boom",
                    "del", "remove"), 2) + [("size",), ("tick", 11), ("clear",)])
    d_full, d_lru, d_exp, d_api = (4, 6, 6, 3) if quick else (5, 7, 7, 4)
    ck.bounds = {"all operations": "histories up to %d out of %d operations" % (d_full, len(full)),
                 "use and eviction": "up to %d out of %d" % (d_lru, len(lru)),
                 "expiry": "up to %d out of %d" % (d_exp, len(exp)),
                 "entry points": "up to %d out of %d" % (d_api, len(api)),
                 "memoised functions": "all call sequences up to %d" % (5 if quick else 6)}
    strs = ("a", "b", "c", "d")
    mixed = (1, "b", 3.5, (1, 2))
    plans = []
    for config in ((None, None, None), (1, None, None), (2, None, None), (2, 10, None),
                   (None, 10, True)):
        plans.append(("all operations", config, strs, full, d_full))
    for config in ((2, None, None), (3, None, True)):
        plans.append(("use and eviction", config, strs, lru, d_lru))
    for config in ((None, 10, None), (1, 10, None), (2, 10, True)):
        plans.append(("expiry", config, strs, exp, d_exp))
    for config in ((None, None, None), (2, None, True), (1, 10, None)):
        plans.append(("entry points", config, strs, api, d_api))
        plans.append(("entry points", config, mixed, api, d_api))
    for n, (group, config, keys, ops, depth) in enumerate(plans):
        batch = []
        for h in histories(ops, depth):
            batch.append(h)
            if len(batch) == 200:
                explore(ck, n, group, config, keys, batch)
                batch = []
        if batch:
            explore(ck, n, group, config, keys, batch)
    memo(ck)


def explore(ck, n, group, config, keys, batch):
    key = (n, config, batch[0], len(batch))
    if not ck.want(key):
        return
    with ck.case(key, group):
        ck.traces += len(batch) - 1
        for h in batch:
            p = Pair(config, keys)
            for op in h:
                ck.step()
                p.do(op)
            p.observe()
            s = p.model.state()
            ck.state((n, s))
            ck.outcome((s, p.serial))
            if len(s[2]) > 0:
                p.drain()


def memo(ck):
    """memoised functions, in caches of all kinds"""
    calls_f = [((1,), {}), ((2,), {}), ((1,), {"b": 3}), (("1",), {}), ((), {"a": 1, "b": 2})]
    todo = [("f",) + c for c in calls_f[:3]] + [("g",) + calls_f[0], ("f",) + calls_f[3],
                                               ("f",) + calls_f[4], ("r", (3,), {})]
    depth = 4 if ck.quick else 5
    for config in ((None, None, None), (1, None, None), (2, 10, True), (3, None, None)):
        for seq in itertools.product(range(len(todo) + 1), repeat=depth):
            key = ("memo", config, seq)
            if not ck.want(key):
                continue
            with ck.case(key, "memoised functions"):
                clock = CLOCK
                clock.now = 1000.0
                cache = GenericCache(**dict((n, v) for n, v in zip(
                    ("maxsize", "expiry", "default_fail"), config) if v is not None))
                model = Model(*config)
                log = []

                def f(a, b=0):
                    log.append("f")
                    return (a, b)

                def g(a):
                    log.append("g")
                    return None

                def r(a):
                    # calls the memoised function itself
                    log.append("r")
                    return memoised["r"](a - 1) + 1 if a > 1 else 1
                memoised = dict((n, decorators.cached(cache)(x))
                                for n, x in (("f", f), ("g", g), ("r", r)))
                plain = {"f": lambda a, b=0: (a, b), "g": lambda a: None, "r": lambda a: a}
                for i in seq:
                    ck.step()
                    if i == len(todo):
                        clock.now += 11
                        continue
                    name, args, kw = todo[i]
                    before = len(log)
                    got = memoised[name](*args, **kw)
                    eq(got, plain[name](*args, **kw), "a memoised function returns its value",
                       "%r" % (key,))
                    if config[0]:
                        ok(len(cache) <= config[0], "size limit", "%r" % (key,))
                if config == (None, None, None):
                    want = len(set(i for i in seq if i < len(todo) and todo[i][0] != "r"))
                    eq(len([x for x in log if x != "r"]), want,
                       "a function is called once for each set of arguments", "%r" % (key,))
                    if any(i < len(todo) and todo[i][0] == "r" for i in seq):
                        eq(log.count("r"), 3, "recursive calls are memoised", "%r" % (key,))
                ck.outcome((config, log))
                ck.state((config, seq))
