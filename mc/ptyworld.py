# -*- coding: utf-8 -*-
"""
A model of the operating system as daeso.thirdparty.pexpect sees it: one child
behind a pseudo terminal, signals, exit statuses and a clock which only moves
when somebody waits.  The module under test is imported with stand-ins for os,
time, select, signal-free terminal modules and resource, so that nothing it
does reaches a real process, descriptor or terminal.
"""

import errno
import os as real_os
import select as real_select
import sys
import types

PID, FD = 77, 9
WNOHANG, X_OK = 1, 1
HUP, INT, KILL, CONT = 1, 2, 9, 18
ECHO = 8
CEOF, CINTR = "\x04", "\x03"
IOC_GET, IOC_SET = 0x5413, 0x5414


class Deadlock(Exception):
    pass


class Executed(Exception):
    """the child side became another program"""


class World(object):

    def __init__(self, output=(), hangup=None, status=None, exit_at=None, style="eio",
                 ignores=(), eintr=(), typed=(), limit=None, reaped=False, fork=PID, access=None,
                 environ=None, race=False, echo=True, echo_off_at=None, answers=()):
        self.now = 1000.0
        self.output = [(self.now + t, d) for t, d in output]    # (time, data)
        self.hangup = None if hangup is None else self.now + hangup
        self.status = status
        self.exit_at = None if exit_at is None else self.now + exit_at
        self.style = style                # what reading after the end does
        self.ignores = set(ignores)
        self.eintr = set(eintr)           # numbers of the select calls interrupted
        self.typed = [(self.now + t, d) for t, d in typed]
        self.limit = limit                # bytes taken by one write
        self.reaped = reaped
        self.fork_result = fork
        self.access_set = access
        self.environ = {"PATH": "/bin:/usr/bin"} if environ is None else environ
        self.race = race                  # the child dies when it is about to get a signal
        self.echo = echo
        self.echo_off_at = None if echo_off_at is None else self.now + echo_off_at
        self.answers = list(answers)      # (text awaited, output, end)
        self.size = (0, 0)
        self.open = True
        self.sent = []                    # signals
        self.written = ""                 # to the child
        self.shown = ""                   # to the user
        self.log = []                     # of the child side
        self.selects = 0
        self.raw = 0

    # -- the course of things

    def settle(self):
        if self.echo_off_at is not None and self.now >= self.echo_off_at:
            self.echo = False

    def exited(self):
        return self.exit_at is not None and self.exit_at <= self.now

    def available(self):
        n = 0
        for t, d in self.output:
            if t > self.now:
                break
            n += len(d)
        return n

    def hung_up(self):
        return (self.hangup is not None and self.hangup <= self.now) or (
            self.hangup is None and self.exited())

    def events(self):
        out = [t for t, d in self.output + self.typed]
        out += [t for t in (self.hangup, self.exit_at) if t is not None]
        return sorted(t for t in out if t > self.now)

    def readable(self, fd):
        if fd == FD:
            return bool(self.available()) or (
                self.hung_up() and not any(t > self.now for t, d in self.output))
        return any(t <= self.now for t, d in self.typed)

    def wait_until(self, cond, end=None):
        """let time pass until cond() holds, at most until end"""
        while not cond():
            ev = self.events()
            if end is not None and (not ev or ev[0] > end):
                self.now = max(self.now, end)
                return cond()
            if not ev:
                raise Deadlock("waits forever")
            self.now = ev[0]
        return True

    # -- system calls

    def sleep(self, s):
        if s < 0:
            raise IOError(errno.EINVAL, "Invalid argument")
        self.now += s
        self.settle()

    def select(self, r, w, x, timeout=None):
        self.selects += 1
        if timeout is not None and timeout < 0:
            raise real_select.error(errno.EINVAL, "Invalid argument")
        end = None if timeout is None else self.now + timeout
        if self.selects in self.eintr:
            ev = [t for t in self.events() if end is None or t <= end]
            if not any(self.readable(f) for f in r):
                if ev:
                    self.now += (ev[0] - self.now) / 2
                elif end is not None:
                    self.now += timeout / 2.0
            raise real_select.error(errno.EINTR, "Interrupted system call")
        self.wait_until(lambda: any(self.readable(f) for f in r), end)
        return [f for f in r if self.readable(f)], [], []

    def read(self, fd, size):
        if fd == 0:
            self.wait_until(lambda: self.readable(0))
            t, d = self.typed.pop(0)
            if len(d) > size:
                self.typed.insert(0, (t, d[size:]))
            return d[:size]
        self.check(fd)
        self.wait_until(lambda: self.readable(fd))
        out = ""
        while self.output and self.output[0][0] <= self.now and len(out) < size:
            t, d = self.output.pop(0)
            take = size - len(out)
            out += d[:take]
            if d[take:]:
                self.output.insert(0, (t, d[take:]))
        if not out and self.style == "eio":
            raise OSError(errno.EIO, "Input/output error")
        return out

    def write(self, fd, data):
        if fd == 1:
            self.shown += data
            return len(data)
        self.check(fd)
        n = len(data) if self.limit is None else min(self.limit, len(data))
        self.written += data[:n]
        while self.answers and self.answers[0][0] in self.written:
            text, out, end = self.answers.pop(0)
            self.written_before = self.written
            if out:
                self.output.append((self.now + 1, out))
            if end:
                self.hangup = self.exit_at = self.now + 2
                self.status = 0
        return n

    def check(self, fd):
        if fd != FD or not self.open:
            raise OSError(errno.EBADF, "Bad file descriptor")

    def close(self, fd):
        if self.fork_result == 0:
            self.log.append(("close", fd))
            if fd % 3:
                raise OSError(errno.EBADF, "Bad file descriptor")
            return
        self.check(fd)
        self.open = False
        self.signal(HUP)

    def signal(self, sig):
        if not self.exited() and sig not in self.ignores and sig != CONT:
            self.exit_at, self.status = self.now + 0.01, sig

    def kill(self, pid, sig):
        if pid != PID:
            raise AssertionError("a signal for process %r" % (pid,))
        if self.race and not self.exited():
            self.exit_at, self.status = self.now, 0
            raise OSError(errno.ESRCH, "No such process")
        if self.exited() and self.reaped:
            raise OSError(errno.ESRCH, "No such process")
        self.sent.append(sig)
        self.signal(sig)

    def waitpid(self, pid, options):
        if pid != PID or self.reaped:
            raise OSError(errno.ECHILD, "No child processes")
        if not options & WNOHANG:
            self.wait_until(self.exited)
        if not self.exited():
            return 0, 0
        self.reaped = (self.status & 0xff) != 0x7f
        return pid, self.status

    def ioctl(self, fd, code, arg):
        import struct
        if fd == FD:
            self.check(fd)
        if code == IOC_GET:
            return struct.pack("HHHH", *(self.size + (0, 0)))
        if code != IOC_SET:
            raise IOError(errno.EINVAL, "Invalid argument")
        self.size = struct.unpack("HHHH", arg)[:2]
        return arg

    def tcgetattr(self, fd):
        if fd == FD:
            self.check(fd)
        cc = ["\0"] * 20
        cc[4], cc[0] = CEOF, CINTR
        self.settle()
        return [1, 2, 3, 0xa3 | (ECHO if self.echo else 0), 5, 6, cc]

    def tcsetattr(self, fd, when, attr):
        if fd == FD:
            self.check(fd)
            if [attr[i] for i in (0, 1, 2, 4, 5)] != [1, 2, 3, 5, 6] or attr[3] & ~ECHO != 0xa3:
                raise AssertionError("other terminal attributes change")
            self.echo = bool(attr[3] & ECHO)
        else:
            self.raw -= 1

    def setraw(self, fd, when=None):
        self.raw += 1

    def forkpty(self):
        if self.fork_result is None:
            raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
        return self.fork_result, (FD if self.fork_result else -1)

    def may_execute(self, path, mode):
        return path in self.access_set if self.access_set is not None else path == "/bin/child"


CURRENT = [None]


def call(name):
    def func(*args):
        return getattr(CURRENT[0], name)(*args)
    return func


class Module(types.ModuleType):
    """a stand-in, which takes what it does not define from the real module"""
    def __init__(self, name, real=None, **attrs):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(attrs)
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        if name == "environ" and self.__name__ == "os":
            return CURRENT[0].environ
        real = self.__dict__["_real"]
        if real is None or name in FORBIDDEN:
            raise AttributeError(name)
        return getattr(real, name)


FORBIDDEN = ("system", "popen", "remove", "unlink", "rmdir", "rename", "killpg", "setsid",
             "popen2", "popen3", "popen4", "startfile", "_exit", "setpgrp", "chown", "chmod")


def executed(how):
    def func(*args):
        CURRENT[0].log.append((how,) + args)
        raise Executed()
    return func


def note(how):
    def func(*args):
        CURRENT[0].log.append((how,) + args)
    return func


def no_openpty():
    raise AssertionError("the child is not started with pty.fork")


def stand_ins():
    import time
    try:
        import signal
    except ImportError:
        signal = None
    osm = Module(
        "os", real_os, read=call("read"), write=call("write"), close=call("close"),
        waitpid=call("waitpid"), kill=call("kill"), access=call("may_execute"), WNOHANG=WNOHANG,
        WIFEXITED=lambda s: s & 0x7f == 0, WEXITSTATUS=lambda s: s >> 8 & 0xff,
        WIFSIGNALED=lambda s: s & 0x7f not in (0, 0x7f), WTERMSIG=lambda s: s & 0x7f,
        WIFSTOPPED=lambda s: s & 0xff == 0x7f, WSTOPSIG=lambda s: s >> 8 & 0xff,
        isatty=lambda fd: fd == FD and CURRENT[0].open, openpty=no_openpty, fork=no_openpty,
        execv=executed("execv"), execvpe=executed("execvpe"), execve=executed("execve"),
        execvp=executed("execvp"), chdir=note("chdir"), X_OK=X_OK, defpath="/bin:/usr/bin")
    timem = Module("time", time, time=lambda: CURRENT[0].now, sleep=call("sleep"))
    selectm = Module("select", real_select, select=call("select"), error=real_select.error)
    term = dict(tcgetattr=call("tcgetattr"), tcsetattr=call("tcsetattr"), ECHO=ECHO, VEOF=4, VINTR=0,
                TCSANOW=0, TCSADRAIN=1, TCSAFLUSH=2, TIOCGWINSZ=IOC_GET, TIOCSWINSZ=IOC_SET,
                error=OSError)
    termios = Module("termios", None, **term)
    ttym = Module("tty", None, setraw=call("setraw"), **term)
    ptym = Module("pty", None, fork=call("forkpty"), STDIN_FILENO=0, STDOUT_FILENO=1,
                  STDERR_FILENO=2)
    fcntl = Module("fcntl", None, ioctl=call("ioctl"))
    resource = Module("resource", None, RLIMIT_NOFILE=7, getrlimit=lambda what: (12, 12))
    signals = Module("signal", signal, SIGHUP=HUP, SIGINT=INT, SIGKILL=KILL, SIGCONT=CONT, SIG_IGN=1,
                     signal=note("signal"))
    return dict(os=osm, time=timem, select=selectm, termios=termios, tty=ttym, pty=ptym,
                fcntl=fcntl, resource=resource, signal=signals)


def load(name):
    """import a module with the stand-ins in place of the real modules"""
    mods = stand_ins()
    saved = dict((n, sys.modules.get(n)) for n in mods)
    sys.modules.update(mods)
    try:
        __import__(name)
        return sys.modules[name]
    finally:
        for n, m in saved.items():
            if m is None:
                del sys.modules[n]
            else:
                sys.modules[n] = m
