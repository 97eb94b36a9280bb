# -*- coding: utf-8 -*-
"""
Controlled scheduler: runs real threads of the code under test one at a time,
switches only at statements of the instrumented modules and at locks, and
enumerates all schedules with a bounded number of preemptions.

Instrumentation happens when a module is imported: a call is inserted before
each statement of its functions.  (A trace function would not do, Jython calls
it inside a global lock.)
"""

import ast
import imp
import os
import sys
import threading

from java.util.concurrent import Semaphore, TimeUnit

real_RLock, real_Lock = threading.RLock, threading.Lock
_local = threading.local()


class Abort(BaseException):
    pass


class SchedLock(object):
    """stands in for threading.Lock and threading.RLock"""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def free_for(self, who):
        return self.owner is None or (self.reentrant and self.owner is who)

    def acquire(self, blocking=1, timeout=None):
        th = getattr(_local, "thread", None)
        who = th or threading.currentThread()
        if th is not None and not (self.reentrant and self.owner is th):
            th.run.point(th, None if not blocking else self)
        if not self.free_for(who):
            if blocking:
                raise RuntimeError("lock is never released")
            return False
        self.owner = who
        self.count += 1
        return True

    def release(self):
        who = getattr(_local, "thread", None) or threading.currentThread()
        if self.owner is None or (self.reentrant and self.owner is not who):
            raise RuntimeError("release of a lock that is not held")
        self.count -= 1
        if not self.count:
            self.owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return self.owner is not None

    _is_owned = locked


def make_rlock(*args, **kw):
    return SchedLock(True)


def make_lock(*args, **kw):
    return SchedLock(False)


class Threading(object):
    """stands in for the module threading"""
    RLock = staticmethod(make_rlock)
    Lock = staticmethod(make_lock)

    def __getattr__(self, name):
        return getattr(threading, name)


def control_locks(modules):
    proxy = Threading()
    for mod in modules:
        for name, val in list(vars(mod).items()):
            if val is threading:
                setattr(mod, name, proxy)
            elif val is real_RLock:
                setattr(mod, name, make_rlock)
            elif val is real_Lock:
                setattr(mod, name, make_lock)


# -- instrumentation ----------------------------------------------------------

# called from inside dictionaries, which have locks of their own
QUIET = frozenset(("__hash__", "__cmp__", "__eq__", "__str__", "__ne__", "__repr__",
                   "__unicode__", "__lt__", "__gt__", "__le__", "__ge__"))


def statement_point():
    th = getattr(_local, "thread", None)
    if th is None:
        return
    f = sys._getframe(1)
    name = f.f_code.co_filename
    while f is not None and f.f_code.co_filename == name:
        if f.f_code.co_name in QUIET:
            return
        f = f.f_back
    th.run.point(th)


class Inserter(ast.NodeTransformer):

    def call(self, node):
        c = ast.Expr(ast.Call(ast.Name("__mc_point__", ast.Load()), [], [], None, None))
        return ast.fix_missing_locations(ast.copy_location(c, node))

    def block(self, body, loop=False):
        out = []
        for stmt in body:
            out.append(self.call(stmt))
            out.append(self.visit(stmt))
        if loop:
            out.append(self.call(body[-1]))
        return out

    def visit_FunctionDef(self, node):
        if node.name not in QUIET:
            node.body = self.block(node.body)
        return node

    def compound(self, node):
        for field in ("body", "orelse", "finalbody"):
            if getattr(node, field, None):
                setattr(node, field, self.block(getattr(node, field),
                                                isinstance(node, (ast.For, ast.While))))
        for h in getattr(node, "handlers", None) or ():
            h.body = self.block(h.body)
        return node

    visit_If = visit_For = visit_While = visit_With = compound
    visit_TryExcept = visit_TryFinally = compound


class Importer(object):
    """imports one package instrumented"""

    def __init__(self, package):
        self.package = package

    def find_module(self, fullname, path=None):
        if fullname != self.package and not fullname.startswith(self.package + "."):
            return None
        base = fullname.split(".")[-1]
        for d in path or sys.path:
            p = os.path.join(d, base)
            if os.path.isfile(os.path.join(p, "__init__.py")):
                return Loader(os.path.join(p, "__init__.py"), p)
            if os.path.isfile(p + ".py"):
                return Loader(p + ".py", None)
        return None


class Loader(object):

    def __init__(self, path, package):
        self.path, self.package = path, package

    def load_module(self, fullname):
        if fullname in sys.modules:
            return sys.modules[fullname]
        f = open(self.path, "rb")
        text = f.read()
        f.close()
        mod = imp.new_module(fullname)
        mod.__file__ = self.path
        mod.__loader__ = self
        if self.package:
            mod.__path__ = [self.package]
        mod.__package__ = fullname if self.package else fullname.rpartition(".")[0]
        mod.__dict__["__mc_point__"] = statement_point
        tree = Inserter().visit(ast.parse(text, self.path))
        code = compile(tree, self.path, "exec")
        sys.modules[fullname] = mod
        try:
            exec code in mod.__dict__
        except:
            del sys.modules[fullname]
            raise
        return mod


class Thread(object):

    def __init__(self, run, index, ops):
        self.run, self.index, self.ops = run, index, ops
        self.sem = Semaphore(0)
        self.pending = None
        self.finished = False
        self.results = []
        self.spans = []
        self.error = None


class Run(object):
    """one execution under a schedule"""

    MAX_STEPS = 20000

    def __init__(self, bodies, prefix):
        self.prefix = prefix
        self.threads = [Thread(self, i, ops) for i, ops in enumerate(bodies)]
        self.decisions = []          # (enabled, current, chosen, preemptions so far)
        self.steps = 0
        self.preemptions = 0
        self.aborted = None
        self.done = Semaphore(0)

    # -- called by the running thread -------------------------------------

    def point(self, th, lock=None):
        """th may be preempted here, or has to wait for lock"""
        if self.aborted:
            raise Abort()
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            self.abort("loops for ever")
            raise Abort()
        th.pending = lock
        nxt = self.choose(th)
        if nxt is None:
            self.abort("deadlock")
            raise Abort()
        if nxt is not th:
            nxt.sem.release()
            th.sem.acquire()
            if self.aborted:
                raise Abort()
        th.pending = None

    def enabled(self):
        return [t for t in self.threads if not t.finished and
                (t.pending is None or t.pending.free_for(t))]

    def choose(self, current):
        en = self.enabled()
        if not en:
            return None
        if len(en) == 1:
            # nothing to decide
            if current is not None and en[0] is not current:
                return en[0]
            return en[0]
        n = len(self.decisions)
        if n < len(self.prefix):
            nxt = self.threads[self.prefix[n]]
        elif current in en:
            nxt = current
        else:
            nxt = en[0]
        self.decisions.append(([t.index for t in en],
                               current.index if current in en else None,
                               nxt.index, self.preemptions))
        if current in en and nxt is not current:
            self.preemptions += 1
        return nxt

    def abort(self, why):
        self.aborted = why
        for t in self.threads:
            t.sem.release()

    def body(self, th):
        _local.thread = th
        th.sem.acquire()
        try:
            if not self.aborted:
                for op in th.ops:
                    start = self.steps
                    th.results.append(op(self, th))
                    self.steps += 1
                    th.spans.append((start, self.steps))
                    self.point(th)
        except Abort:
            pass
        except:
            th.error = sys.exc_info()
        _local.thread = None
        th.finished = True
        if all(t.finished for t in self.threads):
            self.done.release()
        elif not self.aborted:
            nxt = self.choose(None)
            if nxt is None:
                self.abort("deadlock")
            else:
                nxt.sem.release()

    def go(self):
        real = [threading.Thread(target=self.body, args=(t,)) for t in self.threads]
        for r in real:
            r.setDaemon(True)
            r.start()
        first = self.choose(None)
        first.sem.release()
        if not self.done.tryAcquire(60, TimeUnit.SECONDS):
            self.abort("stuck")
            raise RuntimeError("threads are stuck")
        for r in real:
            r.join()
        return self


def explore(make, bound, judge, limit=None):
    """run all schedules of make() -> bodies with at most bound preemptions;
    judge(run) after each; returns the number of schedules"""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        run = Run(make(), prefix)
        run.go()
        n += 1
        judge(run)
        if limit and n >= limit:
            return n, False
        choices = [d[2] for d in run.decisions]
        for i in range(len(prefix), len(run.decisions)):
            en, cur, chosen, pre = run.decisions[i]
            for t in en:
                if t == chosen:
                    continue
                cost = pre + (1 if cur is not None and t != cur else 0)
                if cost <= bound:
                    stack.append(choices[:i] + [t])
    return n, True
