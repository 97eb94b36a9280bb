# -*- coding: utf-8 -*-
"""Loading of the cache with a controlled clock, and its model"""

import time as real_time


class Clock(object):
    """stands in for the time module in the modules of the cache"""

    def __init__(self):
        self.now = 1000.0

    def time(self):
        return self.now

    def __getattr__(self, name):
        return getattr(real_time, name)


def control_time(modules, clock):
    for mod in modules:
        for name, val in list(vars(mod).items()):
            if val is real_time:
                setattr(mod, name, clock)
            elif val is real_time.time:
                setattr(mod, name, clock.time)


class Missing(Exception):
    pass


class Model(object):
    """what a cache is required to do"""

    def __init__(self, maxsize=None, expiry=None, default_fail=False):
        self.maxsize, self.expiry, self.default_fail = maxsize, expiry, default_fail
        self.now = 1000.0
        self.entries = {}
        self.order = []           # least recently used first

    def copy(self):
        m = Model(self.maxsize, self.expiry, self.default_fail)
        m.now, m.entries, m.order = self.now, dict(self.entries), list(self.order)
        return m

    def _shrink(self, nb):
        if self.maxsize:
            while len(self.order) + nb > self.maxsize:
                self.remove(self.order[0])

    def remove(self, k):
        if k in self.entries:
            del self.entries[k]
            self.order.remove(k)

    def insert(self, k, v):
        if k not in self.entries:
            self._shrink(1)
        else:
            self.order.remove(k)
        self.entries[k] = (v, self.now)
        self.order.append(k)

    def expired(self, k):
        return bool(self.expiry) and self.entries[k][1] + self.expiry < self.now

    def lookup(self, k):
        if k not in self.entries:
            raise Missing(k)
        if self.expired(k):
            self.remove(k)
            raise Missing(k)
        self.order.remove(k)
        self.order.append(k)
        return self.entries[k][0]

    def fetch(self, k, fail=None, onmissing=None):
        try:
            return self.lookup(k)
        except Missing:
            if self.default_fail if fail is None else fail:
                raise KeyError(k)
            return onmissing

    def generate(self, k, v):
        """value and whether it was generated"""
        try:
            return self.lookup(k), False
        except Missing:
            self.insert(k, v)
            return v, True

    def collect(self):
        for k in list(self.order):
            if self.expired(k):
                self.remove(k)

    def clear(self):
        self.entries.clear()
        self.order = []

    def reconfigure(self, maxsize=None, expiry=None):
        self.maxsize, self.expiry = maxsize, expiry
        self._shrink(0)

    def state(self):
        return (self.maxsize, self.expiry, tuple(self.order),
                tuple((k, self.entries[k][0], self.now - self.entries[k][1])
                      for k in self.order))
