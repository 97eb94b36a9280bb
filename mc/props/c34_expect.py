# -*- coding: utf-8 -*-
"""C34: dialogues with child programs, for all divisions of their output over time"""

import itertools
import re
import string
import traceback

from mc import ptyworld as pw
from mc.core import eq, ok, Mismatch

pexpect = pw.load("daeso.thirdparty.pexpect")
EOF, TIMEOUT = pexpect.EOF, pexpect.TIMEOUT
TICK = 0.01


Spawn = pexpect.spawn
SPAWNED = []


class Known(Spawn):
    """keeps the collector from closing a child in the world of another one"""
    def __init__(self, *args, **kw):
        SPAWNED.append(self)
        Spawn.__init__(self, *args, **kw)


pexpect.spawn = Known


def run_child(world, *args, **kw):
    pw.CURRENT[0] = world
    try:
        return pexpect.run(*args, **kw)
    finally:
        forget()


def forget():
    for c in SPAWNED:
        c.closed = True
    del SPAWNED[:]


class Session(object):
    """a spawned child in its world"""

    def __init__(self, world, command="child", **kw):
        self.world = world
        pw.CURRENT[0] = world
        kw.setdefault("timeout", None)
        self.child = pexpect.spawn(command, **kw)

    def __enter__(self):
        return self.child

    def __exit__(self, *args):
        forget()


def parts(s):
    """all divisions of s in pieces"""
    if not s:
        yield ()
        return
    for bits in itertools.product((0, 1), repeat=len(s) - 1):
        out, last = [], 0
        for i, b in enumerate(bits):
            if b:
                out.append(s[last:i + 1])
                last = i + 1
        yield tuple(out + [s[last:]])


def streams(alphabet, n):
    for k in range(n + 1):
        for s in itertools.product(alphabet, repeat=k):
            yield "".join(s)


# -- what expect has to do

class Reader(object):
    """plain account of a child's output and of what is still to be looked at"""

    def __init__(self, output, hangup, maxread):
        self.now = 0.0
        self.output = [list(x) for x in output]
        self.hangup = hangup
        self.maxread = maxread
        self.buffer = ""

    def more(self, deadline):
        """read once: data, EOF or TIMEOUT"""
        times = [t for t, d in self.output] or ([self.hangup] if self.hangup is not None else [])
        if not times or (deadline is not None and max(times[0], self.now) > deadline):
            if deadline is None:
                raise AssertionError("waits forever")
            self.now = max(self.now, deadline)
            return TIMEOUT
        self.now = max(self.now, times[0])
        if not self.output:
            return EOF
        got = ""
        while self.output and self.output[0][0] <= self.now and len(got) < self.maxread:
            d = self.output[0][1]
            take = d[:self.maxread - len(got)]
            got += take
            self.output[0][1] = d[len(take):]
            if not self.output[0][1]:
                del self.output[0]
        return got

    def expect(self, patterns, exact, window, timeout):
        """-> index or exception, before, after"""
        deadline = None if timeout is None else self.now + timeout
        while True:
            hit = find(self.buffer, patterns, exact, window)
            if hit:
                i, a, b = hit
                res = (i, self.buffer[:a], self.buffer[a:b])
                self.buffer = self.buffer[b:]
                return res
            got = self.more(deadline)
            if got in (EOF, TIMEOUT):
                before = self.buffer
                if got is EOF:
                    self.buffer = ""
                places = [i for i, p in enumerate(patterns) if p is got]
                return (places[0] if places else got.__name__, before, got.__name__)
            self.buffer += got


def find(buf, patterns, exact, window):
    start = 0 if window is None else max(0, len(buf) - window)
    for pos in range(start, len(buf)):
        for i, p in enumerate(patterns):
            if p is EOF or p is TIMEOUT:
                continue
            if exact:
                if buf.startswith(p, pos):
                    return i, pos, pos + len(p)
            else:
                m = re.compile(p, re.DOTALL).match(buf, pos) if isinstance(p, str) else p.match(buf, pos)
                if m and not (p_anchored(p) and pos):
                    return i, pos, m.end()


def p_anchored(p):
    return (p if isinstance(p, str) else p.pattern).startswith("^")


def outcome(child, f):
    try:
        i = f()
    except (EOF, TIMEOUT) as e:
        i = type(e).__name__
        ok(str(e), "an exception tells what happened")
        eq((child.match, child.match_index), (None, None), "match after an exception")
        after = child.after if child.after is None else child.after.__name__
        return i, child.before, after
    eq(child.match_index, i, "match_index")
    if child.after in (EOF, TIMEOUT):
        ok(child.match is child.after, "match after EOF or TIMEOUT in the list")
        return i, child.before, child.after.__name__
    m = child.match
    eq(m if isinstance(m, basestring) else m.group(), child.after, "match")
    return i, child.before, child.after


def compare(child, reader, patterns, exact, window, timeout, ctx, pass_window=True):
    want = reader.expect(patterns, exact, window, timeout)
    kw = {} if not pass_window else dict(searchwindowsize=window)
    if exact:
        got = outcome(child, lambda: child.expect_exact(list(patterns), timeout=timeout, **kw))
    else:
        got = outcome(child, lambda: child.expect(list(patterns), timeout=timeout, **kw))
    eq(got, want, "what expect finds", ctx)
    eq(child.buffer, reader.buffer, "output left for the next call", ctx)
    return want


EXACT = [("a",), ("ab",), ("ba", "ab"), ("a", "ab"), ("ab", "a"), ("bb", "a"), ("aab", "b"), ("abab", "bb"),
         ("b", EOF), (EOF, "aa"), ("ab", TIMEOUT), (TIMEOUT, "bba", EOF)]
REGEX = [("a",), ("a+",), ("a+b",), ("b", "a.b"), ("a.", "ab"), ("a", "ab?", "b"), ("b", "b.|a"), ("[ab]b", "aa"), ("aa|b",), ("^a", "bb"),
         ("a(?=b)", "ba"), ("(a|b)\\1", EOF), (EOF, "ba*b"), (TIMEOUT, "b{2}", EOF), ("ab(?!a)", "bb")]


def group_streams(ck):
    n = 5 if ck.quick else 7
    ck.bounds["streams"] = ("all outputs of length <= %d over two letters, all divisions in reads, "
                            "%d pattern lists, until the end of the output" % (n, len(EXACT) + len(REGEX)))
    for s in streams("ab", n):
        for chunks in parts(s):
            key = ("stream", chunks)
            if not ck.want(key):
                continue
            with ck.case(key, "searching a stream"):
                for exact, lists in ((True, EXACT), (False, REGEX)):
                    for pats in lists:
                        for window, maxread, style in ((None, 2000, "eio"), (None, 1, "empty"), (2, 2000, "empty"),
                                                       (3, 2, "eio")):
                            out = [(i + 1.0, c) for i, c in enumerate(chunks)]
                            end = len(chunks) + 1.0
                            w = pw.World(out, hangup=end, exit_at=end, status=0, style=style)
                            with Session(w, maxread=maxread, searchwindowsize=window) as child:
                                log = Log()
                                child.logfile_read = log
                                r = Reader(out, end, maxread)
                                found, rest = [], 0
                                ctx = (chunks, pats, window, maxread, style)
                                while rest < 2:
                                    res = compare(child, r, pats, exact, window, None, ctx, pass_window=False)
                                    found.append(res)
                                    ck.step()
                                    if res[2] == "EOF":
                                        rest += 1
                                eq("".join(f[1] + (f[2] if f[2] != "EOF" else "") for f in found), s,
                                   "all output appears once, in order", ctx)
                                eq(log.text, s, "the log of what is read", ctx)
                                ok(child.eof(), "end of file is remembered", ctx)
                                ck.outcome((pats, found))
                ck.state(key)


class Log(object):
    def __init__(self):
        self.text = ""
        self.flushed = None

    def write(self, s):
        self.text += s

    def flush(self):
        self.flushed = self.text


# -- reading like a file

def file_lines(s):
    out = s.split("\r\n")
    return [x + "\r\n" for x in out[:-1]] + ([out[-1]] if out[-1] else [])


def group_files(ck):
    n = 5 if ck.quick else 6
    ck.bounds["files"] = "all outputs of length <= %d over x, CR, LF, all divisions, 7 ways of reading" % n
    for s in streams("x\r\n", n):
        for chunks in parts(s):
            key = ("file", chunks)
            if not ck.want(key):
                continue
            with ck.case(key, "reading like a file"):
                lines = file_lines(s)
                out = [(i + 1.0, c) for i, c in enumerate(chunks)]
                end = len(chunks) + 1.0

                def session(early=False):
                    return Session(pw.World([(0.0, s)] if early and s else out, hangup=None if early else end, exit_at=0.5 if early else end,
                                            status=0, style="empty" if len(s) % 2 else "eio"))
                for early in (False, True):
                    if early and len(chunks) > 1:
                        continue
                    with session(early) as c:
                        if early:
                            c.wait()
                        got = []
                        while True:
                            l = c.readline()
                            if not l:
                                break
                            got.append(l)
                        eq(got, lines, "readline", (chunks, early))
                        eq(c.readline(), "", "readline at the end", chunks)
                    with session(early) as c:
                        eq(c.readlines(), lines, "readlines", (chunks, early))
                    with session(early) as c:
                        eq(list(c), lines, "iteration", (chunks, early))
                    with session(early) as c:
                        eq(c.read(), s, "read", (chunks, early))
                        eq((c.read(), c.read(1)), ("", ""), "read at the end", chunks)
                    for k in (1, 2, 3):
                        with session(early) as c:
                            got = []
                            while True:
                                x = c.read(k)
                                if not x:
                                    break
                                got.append(x)
                            eq(got, [s[i:i + k] for i in range(0, len(s), k)], "read(%d)" % k, (chunks, early))
                    with session(early) as c:
                        eq((c.read(0), c.readline(0)), ("", ""), "read nothing")
                        # mixed
                        a = c.read(1)
                        b = c.readline()
                        rest = c.read()
                        eq((a, b), (s[:1], (file_lines(s[1:]) + [""])[0]), "read and readline", chunks)
                        eq(a + b + rest, s, "read the rest", chunks)
                    ck.step(9)
                ck.state(key)


# -- time

def group_time(ck):
    gaps = (0.0, 1.0, 3.0)
    texts = [("a", "b"), ("ab", "ab"), ("a", "b", "ab"), ("ba", "a", "b")]
    if not ck.quick:
        texts += [("b", "a", "a", "b"), ("aa", "b", "ba", "a")]
    waits = (None, 0.5, 2.5, 3.75)
    lists = [("ab",), ("b", TIMEOUT), (TIMEOUT, "aab", EOF), ("bb", "ba", EOF)]
    ck.bounds["time"] = "%d outputs, all gaps in %r, all pairs of timeouts in %r, system calls interrupted" % (
        len(texts), gaps, waits)
    for text in texts:
        for gap in itertools.product(gaps, repeat=len(text)):
            for t1, t2 in itertools.product(waits, repeat=2):
                key = ("time", text, gap, t1, t2)
                if not ck.want(key):
                    continue
                with ck.case(key, "time limits"):
                    for exact, pats in itertools.product((True, False), lists):
                        for eintr in ((), (1,), (2,), (1, 2), (2, 3)):
                            for default in (False, True):
                                out, t = [], 0.25
                                for g, d in zip(gap, text):
                                    t += g
                                    out.append((t, d))
                                w = pw.World(out, hangup=t + 1, exit_at=t + 1, status=0, eintr=eintr)
                                ctx = (key, pats, exact, eintr, default)
                                with Session(w) as child:
                                    r = Reader(out, t + 1, 2000)
                                    for limit in (t1, t2, t1):
                                        r.now = w.now - 1000.0
                                        if default:
                                            child.timeout = limit
                                            want = r.expect(pats, exact, None, limit)
                                            f = child.expect_exact if exact else child.expect
                                            eq(outcome(child, lambda: f(list(pats))), want, "what expect finds", ctx)
                                            eq(child.buffer, r.buffer, "output left for the next call", ctx)
                                        else:
                                            want = compare(child, r, pats, exact, None, limit, ctx)
                                        ok(abs(w.now - 1000.0 - r.now) < 0.2, "time taken", (ctx, w.now - 1000, r.now))
                                        ck.step()
                                        ck.outcome(want)
                    ck.state(key)
    # polling
    for avail, size in itertools.product(("", "a", "abc"), (1, 2, 5)):
        for timeout in (0, 0.5, 2.5, None, -1):
            for end in (None, 0.1, 1.0):
                key = ("poll", avail, size, timeout, end)
                if not ck.want(key):
                    continue
                with ck.case(key, "read_nonblocking"):
                    if timeout in (None,) and end is None and not avail:
                        continue
                    w = pw.World([(0.0, avail)] if avail else [], hangup=end, exit_at=end, status=0)
                    with Session(w, timeout=0.75) as c:
                        limit = 0.75 if timeout == -1 else timeout
                        try:
                            got = c.read_nonblocking(size, timeout)
                        except (EOF, TIMEOUT) as e:
                            got = type(e).__name__
                        want = avail[:size] if avail else (
                            "EOF" if end is not None and (limit is None or end <= limit) else "TIMEOUT")
                        eq(got, want, "read_nonblocking")
                        c.closed = True
                        try:
                            c.read_nonblocking(1, 0)
                        except ValueError:
                            pass
                        else:
                            ok(False, "reading when closed fails")
                    ck.step()
                    ck.state(key)


# -- the end of the child

STATUSES = [c << 8 for c in range(256)] + list(range(1, 65))


def decoded(st):
    return (st >> 8, None) if not st & 0x7f else (None, st & 0x7f)


def group_end(ck):
    ck.bounds["end"] = "all %d exit codes and signals x the ways to learn of it; children ignoring each " \
                       "set of signals" % len(STATUSES)
    for st in STATUSES:
        for when, style in itertools.product(("before", "after"), ("eio", "empty")):
            key = ("end", st, when, style)
            if not ck.want(key):
                continue
            with ck.case(key, "exit status"):
                for how in ("wait", "isalive", "read", "close", "expect", "terminate", "run", "late", "broken"):
                    t = 0.1 if when == "before" else 2.0
                    hang = t + 1 if how == "late" else t
                    end = hang + 2 if how == "late" else t
                    w = pw.World([(0.0, "out")], hangup=hang, exit_at=end, status=st, style=style)
                    if how == "run":
                        res = run_child(w, "child -x", timeout=None, withexitstatus=True)
                        eq(res, ("out", decoded(st)[0]), "run with exit status", key)
                        ok(not w.open, "run closes the child", key)
                        continue
                    with Session(w) as c:
                        eq((c.exitstatus, c.signalstatus, c.status, c.terminated), (None, None, None, False),
                           "status before the end", key)
                        if how == "wait":
                            eq(c.wait(), decoded(st)[0], "wait", key)
                            eq(c.read(), "out", "output after the end", key)
                            try:
                                c.wait()
                            except pexpect.ExceptionPexpect:
                                pass
                            else:
                                ok(False, "waiting for a dead child fails", key)
                        elif how == "isalive":
                            alive = c.isalive()
                            eq(alive, True, "isalive before the end", key)
                            w.now += 3
                            eq((c.isalive(), c.isalive()), (False, False), "isalive after the end", key)
                            eq(c.read(), "out", "output after the end", key)
                        elif how in ("read", "late"):
                            eq(c.read(), "out", "output", key)
                            eq(c.isalive(), False, "isalive after end of file", key)
                        elif how == "expect":
                            eq(c.expect(["t", EOF]), 0, "expect", key)
                            w.now += 3
                            eq(c.expect(["t", EOF]), 1, "expect", key)
                            eq(c.isalive(), False, "isalive after end of file", key)
                        elif how == "terminate":
                            w.now += 3
                            eq(c.terminate(), True, "terminate after the end", key)
                            eq(w.sent, [], "signals after the end", key)
                        elif how == "close":
                            w.now += 3
                            c.close()
                            eq((c.closed, c.child_fd, w.open), (True, -1, False), "closed", key)
                            c.close()
                            eq(w.sent, [], "signals after the end", key)
                        elif how == "broken":
                            # somebody else took the status
                            w.reaped = True
                            try:
                                c.isalive()
                            except pexpect.ExceptionPexpect:
                                pass
                            else:
                                ok(False, "a lost child is reported", key)
                            continue
                        eq((c.exitstatus, c.signalstatus, c.status, c.terminated), decoded(st) + (st, True),
                           "status after the end", (key, how))
                    ck.step()
                ck.state(key)
    # stubborn children
    for ign in itertools.chain.from_iterable(itertools.combinations((pw.HUP, pw.INT, pw.KILL), k) for k in range(4)):
        for force, how, race in itertools.product((False, True), ("terminate", "close", "del"), (False, True)):
            key = ("stubborn", ign, force, how, race)
            if not ck.want(key):
                continue
            with ck.case(key, "ending a child"):
                w = pw.World([], ignores=ign, race=race)
                with Session(w) as c:
                    stays = set(ign) >= ({pw.HUP, pw.INT, pw.KILL} if force or how == "del" else {pw.HUP, pw.INT})
                    stays = stays and not race
                    if how == "terminate":
                        got = c.terminate(force)
                        eq(got, not stays, "result of terminate", key)
                    elif how == "close":
                        try:
                            c.close(force)
                            got = True
                        except pexpect.ExceptionPexpect:
                            got = False
                        eq(got, not stays, "close succeeds", key)
                        eq(w.open, False, "the descriptor is closed", key)
                        if got:
                            eq((c.closed, c.child_fd), (True, -1), "closed", key)
                    else:
                        c.__del__()
                        eq(w.open, False, "the descriptor is closed", key)
                    eq(w.exited(), not stays, "the child is dead", key)
                    if pw.KILL in w.sent:
                        ok(force or how == "del", "KILL is sent only when asked for", key)
                        ok({pw.HUP, pw.INT} <= set(w.sent), "gentle signals come first", key)
                        ok(w.sent.index(pw.KILL) == len(w.sent) - 1, "KILL comes last", key)
                    if not stays:
                        eq(c.isalive(), False, "isalive", key)
                    ck.outcome((w.sent, stays))
                ck.step()
                ck.state(key)
    key = ("stopped",)
    if ck.want(key):
        with ck.case(key, "exit status"):
            for how in ("isalive", "wait"):
                w = pw.World([], exit_at=0.0 if how == "isalive" else 1.0, status=0x137f)
                with Session(w) as c:
                    try:
                        getattr(c, how)()
                    except pexpect.ExceptionPexpect:
                        pass
                    else:
                        ok(False, "a stopped child is reported", how)
                    eq(c.terminated, False, "a stopped child is not dead", how)


# -- writing to the child

def group_send(ck):
    texts = ["", "x", "two words\n", "\x00\xff\r"]
    ck.bounds["send"] = "all sequences of 3 writing calls; all characters as control characters"
    ops = [("send", t) for t in texts] + [("sendline", t) for t in texts[:3]] + [("sendline",)] + \
          [("write", "w"), ("writelines", ("p", "q\n")), ("sendcontrol", "c"), ("sendeof",), ("sendintr",)]
    for seq in itertools.product(ops, repeat=2 if ck.quick else 3):
        for limit in (None, 1):
            key = ("send", seq, limit)
            if not ck.want(key):
                continue
            with ck.case(key, "writing to the child"):
                w = pw.World([], limit=limit)
                with Session(w) as c:
                    c.logfile, c.logfile_send, c.logfile_read = Log(), Log(), Log()
                    said, want = "", ""
                    for op in seq:
                        pieces = {"send": lambda: [op[1]], "write": lambda: [op[1]],
                                  "sendline": lambda: [op[1] if len(op) > 1 else "", "\n"],
                                  "writelines": lambda: list(op[1]), "sendcontrol": lambda: ["\x03"],
                                  "sendeof": lambda: [pw.CEOF], "sendintr": lambda: [pw.CINTR]}[op[0]]()
                        n = sum(len(p) if limit is None else min(limit, len(p)) for p in pieces)
                        res = getattr(c, op[0])(*op[1:])
                        if op[0] in ("send", "sendline", "sendcontrol"):
                            eq(res, n, "bytes written", (key, op))
                        for p in pieces:
                            said += p
                            want += p if limit is None else p[:limit]
                        eq(w.written, want, "what the child gets", (key, op))
                        ck.step()
                    eq((c.logfile.text, c.logfile_send.text, c.logfile_read.text), (said, said, ""), "logs", key)
                    eq(c.logfile.flushed or "", said, "the log is flushed", key)
                ck.state(key)
    key = ("control",)
    if ck.want(key):
        with ck.case(key, "control characters"):
            for i in range(256):
                ch = chr(i)
                w = pw.World([])
                with Session(w) as c:
                    res = c.sendcontrol(ch)
                    if ch in string.ascii_letters or ch in "@[\\]^_":
                        want = chr(ord(ch.upper()) - 64)
                    elif ch in "`{|}~":
                        want = chr(ord(ch) - 96)
                    elif ch == "?":
                        want = "\x7f"
                    else:
                        want = ""
                    eq((w.written, res), (want, len(want)), "control character", ch)
                ck.step()
    for echo, seq in itertools.product((False, True), itertools.product((False, True), repeat=3)):
        key = ("echo", echo, seq)
        if ck.want(key):
            with ck.case(key, "terminal settings"):
                w = pw.World([], echo=echo)
                with Session(w) as c:
                    eq(c.getecho(), echo, "echo")
                    for x in seq:
                        c.setecho(x)
                        eq((c.getecho(), w.echo), (x, x), "echo after setecho", key)
                    eq((c.isatty(), c.fileno()), (True, pw.FD), "terminal")
                for off, limit in itertools.product((None, 0.0, 0.95, 1.95, 4.0), (-1, 0, 1, 3)):
                    w = pw.World([], echo=True, echo_off_at=off)
                    with Session(w, timeout=2) as c:
                        got = c.waitnoecho(limit)
                        eq(got, off is not None and off <= (2 if limit == -1 else limit), "waitnoecho", (off, limit))
                    ck.step()
                w = pw.World([], echo_off_at=50.0)
                with Session(w, timeout=2) as c:
                    eq(c.waitnoecho(None), True, "waitnoecho without a limit")
    for r, cs in itertools.product((0, 1, 24, 255, 65535), repeat=2):
        key = ("size", r, cs)
        if ck.want(key):
            with ck.case(key, "terminal settings"):
                w = pw.World([])
                with Session(w) as c:
                    c.setwinsize(r, cs)
                    eq((w.size, tuple(c.getwinsize())), ((r, cs), (r, cs)), "window size")
                ck.step()


# -- starting a program

def words(s):
    """-> list of words, None if a quote or an escape is not ended"""
    out, cur, i = [], None, 0
    while i < len(s):
        ch = s[i]
        if ch.isspace():
            if cur is not None:
                out.append(cur)
            cur = None
        elif ch in "'\"":
            j = s.find(ch, i + 1)
            if j < 0:
                return None
            cur = (cur or "") + s[i + 1:j]
            i = j
        elif ch == "\\":
            if i + 1 == len(s):
                return None
            cur = (cur or "") + s[i + 1]
            i += 1
        else:
            cur = (cur or "") + ch
        i += 1
    return out + ([cur] if cur is not None else [])


def group_start(ck):
    n = 6 if ck.quick else 8
    ck.bounds["command lines"] = "all of length <= %d over a, blank, quotes, backslash" % n
    for pre in itertools.product("a '\"\\", repeat=3):
        key = ("split", pre)
        if not ck.want(key):
            continue
        with ck.case(key, "command lines"):
            for rest in streams("a '\"\\", n - 3):
                s = "".join(pre) + rest
                want = words(s)
                got = pexpect.split_command_line(s)
                if want is not None:
                    eq(got, want, "words of a command line", s)
                t = s.replace(" ", "\t")
                if want is not None:
                    eq(pexpect.split_command_line(t), [x.replace(" ", "\t") for x in want], "words with tabs", t)
                ck.step(2)
                ck.outcome(got)
            ck.state(key)
    key = ("short",)
    if ck.want(key):
        with ck.case(key, "command lines"):
            for s in streams("a '\"\\", 2):
                want = words(s)
                if want is not None:
                    eq(pexpect.split_command_line(s), want, "words of a command line", s)
    # finding the program
    dirs = ("/p", "/q r", "/bin")
    places = ["%s/child" % d for d in dirs] + ["/usr/bin/child"]
    for k in range(len(places) + 1):
        for have in itertools.combinations(places, k):
            for path in [None, ""] + [":".join(x) for m in (1, 2, 3) for x in itertools.permutations(dirs, m)]:
                key = ("which", have, path)
                if not ck.want(key):
                    continue
                with ck.case(key, "finding the program"):
                    env = {} if path is None else {"PATH": path}
                    w = pw.World([], access=set(have), environ=env)
                    pw.CURRENT[0] = w
                    look = (path or "/bin:/usr/bin").split(":")
                    want = ([d + "/child" for d in look if d + "/child" in have] + [None])[0]
                    eq(pexpect.which("child"), want, "which", key)
                    for full in ("/q r/child", "/opt/none"):
                        eq(pexpect.which(full), full if full in have else None, "which with a path", key)
                    for args in (None, ["-x", "a b"]):
                        try:
                            if args is None:
                                s = Session(w, "child 'a b' -c")
                            else:
                                s = Session(w, "child", args=args)
                        except pexpect.ExceptionPexpect:
                            ok(want is None, "a program which is there is found", key)
                            continue
                        with s as c:
                            ok(want is not None, "a program which is not there is not started", key)
                            eq((c.command, c.args), (want, [want] + (args or ["a b", "-c"])), "command", key)
                            eq((c.pid, c.child_fd, c.closed, c.terminated), (pw.PID, pw.FD, False, False), "started")
                            if args:
                                eq(args, ["-x", "a b"], "the caller's arguments stay as they are")
                    ck.step(5)
                    ck.state(key)
    # the side of the child
    for args, cwd, env in itertools.product(([], ["x", "y z"], ["-"]), (None, "/some where"),
                                            (None, {}, {"A": "b"})):
        key = ("child", tuple(args), cwd, repr(env))
        if not ck.want(key):
            continue
        with ck.case(key, "the side of the child"):
            w = pw.World([], fork=0)
            try:
                Session(w, "/bin/child", args=args, cwd=cwd, env=env)
                ok(False, "the child runs the program", key)
            except pw.Executed:
                pass
            done = w.log[-1]
            want = ["/bin/child"] + args
            if env is None:
                ok(done[0] in ("execv", "execvp") and done[1:] == ("/bin/child", want), "the program run", done)
            else:
                ok(done[0] in ("execvpe", "execve") and done[1:] == ("/bin/child", want, env), "the program run", done)
            eq([x[1] for x in w.log if x[0] == "chdir"], [cwd] if cwd else [], "directory of the child", key)
            eq(sorted(x[1] for x in w.log if x[0] == "close"), list(range(3, 12)), "descriptors closed in the child")
            ck.step()
            ck.state(key)
    key = ("fork",)
    if ck.want(key):
        with ck.case(key, "starting fails"):
            for bad in (lambda: Session(pw.World([], fork=None)), lambda: Session(pw.World([]), 7),
                        lambda: Session(pw.World([]), "none")):
                try:
                    bad()
                except pexpect.ExceptionPexpect:
                    pass
                else:
                    ok(False, "a failure to start is reported")


# -- run and interact

def group_run(ck):
    ck.bounds["run"] = "dialogues of two questions in all divisions of the output"
    dialog = "us:\r\npw:\r\n"
    for chunks in parts(dialog[:8] if ck.quick else dialog):
        key = ("run", chunks)
        if not ck.want(key):
            continue
        with ck.case(key, "run"):
            out = [(float(i), c) for i, c in enumerate(chunks)]
            t = float(len(chunks))
            s = "".join(chunks)
            def f(result):
                return lambda d: result
            plans = [(None, None, None, ""), ({}, None, None, ""), ({"us:": "joe\n"}, None, "us:", "joe\n"),
                     ({"[:]": "y"}, None, ":", "y"), ({"us:": f(None)}, None, None, ""),
                     ({"us:": f(True)}, "us:", None, ""), ({"s": f("from f")}, None, "s", "from f"),
                     ({"p|u": "1", TIMEOUT: f(True)}, None, "[up]", "1"),
                     ({":": lambda d: d["event_count"] == 1}, ":\\s*pw?:", None, ""),
                     ({"s:": lambda d: d["child"].after == "s:" and d["extra_args"] == "extra"}, "s:", None, "")]
            for i, (events, stop, on, answer) in enumerate(plans):
                for status in (False, True):
                    w = pw.World(out, hangup=t, exit_at=t, status=3 << 8)
                    res = run_child(w, "child", timeout=None, withexitstatus=status, events=events,
                                      extra_args="extra")
                    m = stop and re.search(stop, s)
                    ctx = (key, i, status)
                    eq(res[0] if status else res, s[:m.end()] if m else s, "output of run", ctx)
                    eq(w.written, answer * len(re.findall(on, s)) if on else "", "answers of run", ctx)
                    if status and not m:
                        eq(res[1], 3, "exit status of run", ctx)
                    if status:
                        ok(not w.open and w.exited(), "run closes the child", ctx)
                    ck.step()
            # a limit which is too short
            w = pw.World(out + [(t + 50, "never")], hangup=t + 60, exit_at=t + 60, status=0)
            eq(run_child(w, "child", timeout=t + 5), s, "output of run until the time limit", key)
            ck.state(key)
    # the child answers
    for echo in (0, 1):
        key = ("dialogue", echo)
        if ck.want(key):
            with ck.case(key, "run"):
                w = pw.World([(0.0, "login: ")], answers=[("joe\n", "password: ", False), ("sec\n", "welcome", True)])
                res = run_child(w, "child", timeout=None, withexitstatus=True,
                                  events={"(?i)LOGIN": "joe\n", "(?i)password": "sec\n"})
                eq(res, ("login: password: welcome", 0), "a dialogue")
                eq(w.written, "joe\nsec\n", "answers")
                ck.step()


def group_interact(ck):
    n = 3 if ck.quick else 4
    ck.bounds["interact"] = "all keystrokes of length <= %d over x, y and the escape character in all " \
                            "divisions; output before, between and after; end of the child" % n
    for s in streams("xy\x1d", n):
        for chunks in parts(s):
            for out_n, buf, style, limit in itertools.product((0, 1, 2), ("", "kept"), ("eio", "empty"), (None, 1)):
                key = ("interact", chunks, out_n, buf, style, limit)
                if not ck.want(key):
                    continue
                with ck.case(key, "interact"):
                    for filt in (False, True):
                        esc = s.find("\x1d")
                        typed = [(i + 1.0, c) for i, c in enumerate(chunks)]
                        out = [(i + 0.5, "o%d" % i) for i in range(out_n)]
                        end = len(chunks) + 1.5
                        w = pw.World(out, hangup=end, exit_at=end, status=0, typed=typed, style=style, limit=limit)
                        with Session(w) as c:
                            c.buffer = buf
                            c.stdout = Log()
                            log = c.logfile = Log()
                            kw = dict(input_filter=lambda d: d.replace("x", "z"),
                                      output_filter=lambda d: d.upper()) if filt else {}
                            try:
                                c.interact(**kw)
                            except (OSError, IOError) as e:
                                raise Mismatch("interact ends when the child does", "%r: %r" % (key, e))
                            want = s if esc < 0 else s[:esc]
                            eq(w.written, want.replace("x", "z") if filt else want, "keystrokes sent", (key, filt))
                            eq(c.stdout.text, buf, "what was read before is shown", key)
                            # until the escape character arrives
                            stop = end
                            pos = 0
                            for t, d in typed:
                                pos += len(d)
                                if 0 <= esc < pos:
                                    stop = t
                                    break
                            shown = "".join(d for t, d in out if t <= stop)
                            eq(w.shown, shown.upper() if filt else shown, "output shown", (key, filt))
                            eq(log.text, w.shown, "log", key)
                            eq(w.raw, 0, "the terminal mode is restored", key)
                            eq(c.buffer, "", "buffer", key)
                        ck.step()
                    ck.state(key)
    # another escape character, and the child ending while the user types nothing
    for esc, s in itertools.product(("q", "\x03"), ("q", "aq", "a\x03b", "\x1dq", "qq\x03")):
        key = ("escape", esc, s)
        if ck.want(key):
            with ck.case(key, "interact"):
                w = pw.World([(5.0, "out")], hangup=6.0, exit_at=6.0, status=0, typed=[(1.0, s)])
                with Session(w) as c:
                    c.stdout = Log()
                    c.interact(esc)
                    eq(w.written, s[:s.find(esc)] if esc in s else s, "keystrokes sent", key)
                    eq(w.shown, "" if esc in s else "out", "output shown", key)
                    eq(w.raw, 0, "the terminal mode is restored", key)


def run(ck):
    group_streams(ck)
    group_files(ck)
    group_time(ck)
    group_end(ck)
    group_send(ck)
    group_start(ck)
    group_run(ck)
    group_interact(ck)
