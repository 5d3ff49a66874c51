"""A scheduler, clock, random source and record file for the maintenance
service, symbolic or concrete."""
import os
import shutil
import tempfile
from errno import ENOENT, ENOSPC

from symx import timesym
from symx.env import Patcher, quiet_eliot
from symx.values import *
from twisted.internet.error import AlreadyCalled, AlreadyCancelled
from twisted.internet.interfaces import IDelayedCall, IReactorTime
from twisted.python.filepath import FilePath
from zope.interface import implementer

quiet_eliot()
US = 1000000


def seconds_of(ctx, us):
    """``us`` microseconds as the number of seconds the platform reports."""
    return us / US if ctx.concrete or not is_sym(us) else SymReal(z3.ToReal(term_of(us)) / z3.RealVal(US))


def exact_us(ctx, seconds):
    """Microseconds of a delay given in seconds."""
    if ctx.concrete or not is_sym(seconds):
        return round(seconds * US)
    return timesym.to_us(seconds * US)


@implementer(IDelayedCall)
class Call:
    def __init__(self, reactor, delay, at, f, a, kw):
        self.reactor, self.delay, self.at = reactor, delay, at
        self.f, self.a, self.kw = f, a, kw
        self.called = self.cancelled = 0

    def cancel(self):
        if self.cancelled:
            raise AlreadyCancelled
        if self.called:
            raise AlreadyCalled
        self.cancelled = 1

    def active(self):
        return not (self.called or self.cancelled)

    def getTime(self):
        return seconds_of(self.reactor.ctx, self.at)

    def fire(self):
        assert self.active()
        self.called = 1
        self.f(*self.a, **self.kw)


@implementer(IReactorTime)
class Reactor:
    """Twisted's delayed calls, driven by the harness."""

    def __init__(self, ctx, now_us):
        self.ctx = ctx
        self.now = now_us
        self.calls = []

    def seconds(self):
        return seconds_of(self.ctx, self.now)

    def callLater(self, delay, f, *a, **kw):
        us = exact_us(self.ctx, delay)
        self.ctx.check(us >= 0, "no delay is negative")
        c = Call(self, us, self.now + us, f, a, kw)
        self.calls.append(c)
        return c

    def active(self):
        return [c for c in self.calls if c.active()]

    def getDelayedCalls(self):
        return self.active()


class Random:
    """A random source: every draw is unknown within its bounds."""

    def __init__(self, ctx, name="draw"):
        self.ctx = ctx
        self.name = name
        self.n = 0
        self.bounds = []  # (low, high, drawn) in microseconds

    def uniform(self, a, b):
        ctx = self.ctx
        lo, hi = exact_us(ctx, a), exact_us(ctx, b)
        draw = ctx.int("%s%d" % (self.name, self.n), -(2 ** 45), 2 ** 45)
        self.n += 1
        if ctx.concrete:
            draw = min(max(draw, min(lo, hi)), max(lo, hi))
        else:
            ctx.assume(Or(And(lo <= draw, draw <= hi), And(hi <= draw, draw <= lo)))
        self.bounds.append((lo, hi, draw))
        return seconds_of(ctx, draw)


class Path:
    """The file recording the last run."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.full = False
        self.content = None
        self.path = "last-run"

    def getContent(self):
        if self.content is None:
            raise OSError(ENOENT, "no such file")
        return self.content

    def setContent(self, content, ext=b".new"):
        if self.full:
            raise OSError(ENOSPC, "disk full")
        self.content = content

    def exists(self):
        return self.content is not None

    isfile = exists


class RealPath(FilePath):
    full = False

    def setContent(self, content, ext=b".new"):
        if self.full:
            raise OSError(ENOSPC, "disk full")
        FilePath.setContent(self, content)


def path(ctx):
    if not ctx.concrete:
        return Path(ctx)
    d = tempfile.mkdtemp(prefix="c14-")
    ctx.cleanup(lambda: shutil.rmtree(d))
    return RealPath(os.path.join(d, "last-run"))


def install(ctx):
    if ctx.concrete:
        return None
    ctx.opaque_text = True
    p = Patcher(ctx)
    p.builtins()
    timesym.install(p)
    return p
