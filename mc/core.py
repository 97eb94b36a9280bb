# -*- coding: utf-8 -*-
"""
Core of the bounded exhaustive explorer (runs on Jython, next to the code).

A property module defines ``run(ck)``.  It enumerates *cases* (input shapes,
operation histories, schedules) completely within stated bounds; every case is
executed on the real code and judged by an oracle.  ``ck`` counts, shards over
JVMs, records distinct observed outcomes and turns failures into replayable
artefacts.
"""

import hashlib
import os
import sys
import threading
import time
import traceback


class Mismatch(Exception):
    """An oracle found that observed behaviour differs from what is required"""
    def __init__(self, label, detail=""):
        Exception.__init__(self, label)
        self.label = label
        self.detail = detail


def digest(obj):
    data = repr(obj)
    if isinstance(data, unicode):
        data = data.encode("utf-8")
    return hashlib.md5(data).hexdigest()[:16]


class Checker(object):

    MAX_VIOLATIONS = 40

    def __init__(self, prop, tier, seed, shard, nshards, scratch,
                 replay_key=None, known=(), deadline=None):
        self.prop = prop
        self.tier = tier
        self.quick = tier != "thorough"
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.scratch = scratch
        self.replay_key = replay_key
        self.known = frozenset(known)
        self.deadline = deadline
        # measured on this run
        self.n_enumerated = 0
        self.traces = 0
        self.transitions = 0
        self.state_set = set()
        self.outcome_set = set()
        self.groups = {}
        self.samples = []
        self.violations = []
        self.seen_sigs = set()
        self.capped = False
        self.notes = []
        self.bounds = {}
        # heart beat
        self.current = None
        self.serial = 0
        self.done = False
        self._tmp_n = 0

    # -- enumeration ------------------------------------------------------

    def want(self, key):
        """Does this worker have to execute the case called key?"""
        n = self.n_enumerated
        self.n_enumerated += 1
        if self.replay_key is not None:
            return repr(key) == self.replay_key
        if (n + self.seed) % self.nshards != self.shard:
            return False
        if self.capped:
            return False
        if self.deadline and (self.serial & 15) == 0 and time.time() > self.deadline:
            self.capped = True
            return False
        return True

    def cases(self, keys):
        for key in keys:
            if self.want(key):
                yield key

    def case(self, key, group=None):
        return Case(self, key, group)

    # -- counting ---------------------------------------------------------

    def step(self, n=1):
        self.transitions += n

    def state(self, canon):
        """Record a reached state; returns True if it was new to this worker"""
        h = digest(canon)
        if h in self.state_set:
            return False
        self.state_set.add(h)
        return True

    def outcome(self, obj):
        self.outcome_set.add(digest(obj))

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(_u(text)[:600])

    # -- judging ----------------------------------------------------------

    def violate(self, key, label, detail):
        sig = "%s|%s" % (_u(label), _u(repr(key)))
        sig = sig if len(sig) < 900 else sig[:860] + "#" + digest(sig)
        if sig in self.seen_sigs:
            return
        self.seen_sigs.add(sig)
        fresh = len([v for v in self.violations if v["sig"] not in self.known])
        if sig not in self.known and fresh >= self.MAX_VIOLATIONS:
            return
        self.violations.append(
            dict(sig=sig, key=repr(key), label=_u(label), detail=_u(detail)[:6000]))

    def tmpdir(self):
        """A fresh scratch directory"""
        self._tmp_n += 1
        path = os.path.join(self.scratch, "t%d" % self._tmp_n)
        os.mkdir(path)
        return path


class Case(object):

    def __init__(self, ck, key, group):
        self.ck = ck
        self.key = key
        self.group = group

    def __enter__(self):
        ck = self.ck
        ck.current = self.key
        ck.serial += 1
        ck.traces += 1
        if self.group is not None:
            ck.groups[self.group] = ck.groups.get(self.group, 0) + 1
        if ck.traces in (1, 50):
            ck.sample(repr(self.key))
        return self

    def __exit__(self, typ, exc, tb):
        if typ is None:
            return False
        if typ is Mismatch or isinstance(exc, Mismatch):
            self.ck.violate(self.key, exc.label, exc.detail)
            return True
        name = getattr(typ, "__name__", str(typ))
        if name in ("KeyboardInterrupt", "SystemExit", "ThreadDeath", "OutOfMemoryError"):
            if name == "OutOfMemoryError":
                self.ck.violate(self.key, "memory exhausted", "")
                return True
            return name == "SystemExit" and self._exit(exc)
        text = "".join(traceback.format_exception(typ, exc, tb))
        self.ck.violate(self.key, "unexpected exception " + name, text)
        return True

    def _exit(self, exc):
        self.ck.violate(self.key, "unexpected SystemExit", repr(exc))
        return True


def _u(x):
    if isinstance(x, unicode):
        return x
    if isinstance(x, str):
        return x.decode("utf-8", "replace")
    return repr(x).decode("utf-8", "replace")


# -- oracle helpers -----------------------------------------------------------

def eq(got, want, label, ctx=""):
    if not (got == want):
        raise Mismatch(label, "%s\nobserved: %r\nrequired: %r" % (_s(ctx), got, want))


def ok(cond, label, ctx=""):
    if not cond:
        raise Mismatch(label, _s(ctx))


def close(got, want, label, ctx="", tol=1e-9):
    if got is None or want is None:
        if got is not want:
            raise Mismatch(label, "%s\nobserved: %r\nrequired: %r" % (_s(ctx), got, want))
        return
    try:
        good = abs(got - want) <= tol * max(1.0, abs(want))
    except TypeError:
        good = False
    if not good:
        raise Mismatch(label, "%s\nobserved: %r\nrequired: %r" % (_s(ctx), got, want))


def raises(excs, func, label, ctx=""):
    """func() must raise one of excs"""
    try:
        value = func()
    except excs:
        return
    except Exception, inst:
        raise Mismatch(label, "%s\nobserved: %s raised\nrequired: %r" % (
            _s(ctx), traceback.format_exc(), excs))
    raise Mismatch(label, "%s\nobserved: returned %r\nrequired: raises %r" % (
        _s(ctx), value, excs))


def outcome_of(func):
    """('ok', value) or ('exc', class name)"""
    try:
        return ("ok", func())
    except Exception, inst:
        return ("exc", inst.__class__.__name__)


def _s(x):
    if isinstance(x, unicode):
        return x.encode("utf-8")
    return x if isinstance(x, str) else repr(x)


def multiset(items):
    d = {}
    for i in items:
        d[i] = d.get(i, 0) + 1
    return d
