"""Lease maintenance keeps running on schedule, whatever happens to a run."""
from symx import timesym
from symx.runner import H
from twisted.internet.defer import Deferred, fail, succeed

from _zkapauthorizer import lease_maintenance as L
from checks.maintenance_common import *

PROPERTY = "C14"
TITLE = "lease maintenance keeps running on schedule, whatever happens to a run"
ASSUMPTIONS = [
    "the clock never goes back, and the recorded last run is not in the future",
    "Random.uniform returns some value between its arguments, a whole number of microseconds; delays are rounded to microseconds as timedelta does",
    "the reactor fires a call no earlier than asked for",
    "a service stopped during a run is not started again before the run ends",
]
DAY = 86400 * US
NOW_MIN, NOW_MAX = 10 ** 15, 2 ** 32 * US


class Boom(Exception):
    pass


class World:
    def __init__(self, ctx, free=False):
        self.ctx = ctx
        install(ctx)
        self.reactor = Reactor(ctx, ctx.int("now", NOW_MIN, NOW_MAX))
        self.random = Random(ctx)
        self.path = path(ctx)
        self.mean = ctx.int("mean", 0, 60 * DAY)
        self.range = ctx.int("range", 0, 200 * DAY)
        if not free:
            ctx.assume(self.range <= 2 * self.mean)
        self.started = 0
        self.running = []
        self.plan = []

    def config(self):
        d = lambda us: timesym.delta_of(self.ctx, us)
        return L.LeaseMaintenanceConfig(d(self.mean), d(self.range), d(0))

    def operation(self):
        """One maintenance run, ending as the harness decides."""
        ctx = self.ctx
        self.started += 1
        how = ctx.pick("run%d" % self.started, ["done", "raises", "fails", "pending"])
        if how == "raises":
            raise Boom()
        d = Deferred()
        self.running.append(d)

        async def go():
            try:
                await d
            finally:
                self.running.remove(d)

        if how == "done":
            d.callback(None)
        elif how == "fails":
            d.errback(Boom())
        return go()

    def end(self):
        """The run in progress ends."""
        d = self.running[0]
        self.advance("run%d" % self.started)
        if self.ctx.flag("fails%d" % self.started):
            d.errback(Boom())
        else:
            d.callback(None)

    def advance(self, what):
        self.reactor.now = self.reactor.now + self.ctx.int("elapsed." + what, 0, 40 * DAY)

    def service(self):
        return L.lease_maintenance_service(
            self.operation, self.reactor, self.path, self.random, self.config()
        )

    def fire(self):
        (c,) = self.reactor.active()
        self.reactor.now = c.at + self.ctx.int("late%d" % len(self.reactor.calls), 0, DAY)
        c.fire()

    def next_is_in_range(self):
        """The only thing scheduled is the next run, at a sound distance."""
        ctx = self.ctx
        active = self.reactor.active()
        ctx.check(len(active) + len(self.running) == 1, "one run is scheduled or in progress", (len(active), len(self.running)))
        if active:
            d = active[0].delay
            low, high = self.mean - self.range // 2, self.mean + self.range // 2
            ctx.check(Or(And(low <= d, d <= high), And(low < 0, d >= 0, d <= high)), "the delay is drawn from the configured range")
            ctx.check(active[0].delay == self.clamp(self.random.bounds[-1][2]), "the delay is the one drawn")
            lo, hi, _ = self.random.bounds[-1]
            ctx.check(And(lo == low, hi == high), "the draw covers the whole configured range")

    def clamp(self, x):
        return Max([x, 0])


def stop(ctx, w, s):
    """Stop the service; nothing runs or gets scheduled afterwards."""
    started = w.started
    from twisted.internet.defer import maybeDeferred
    from checks.client_common import outcome

    result = outcome(maybeDeferred(s.stopService))
    ctx.check(result[0] != "error", "stopping succeeds", result)
    ctx.check(w.reactor.active() == [], "stopping cancels the pending run")
    if w.running:
        ctx.cover("stopped during a run")
        w.end()
    else:
        ctx.cover("stopped between runs")
    ctx.check(w.reactor.active() == [], "nothing is scheduled after stopping")
    ctx.check(w.started == started, "nothing runs after stopping")
    ctx.check(not s.running, "the service is stopped")


def history(ctx, runs, free=False):
    """From the first start through several runs, stopping anywhere."""
    w = World(ctx, free)
    s = w.service()
    ctx.check(w.reactor.active() == [] and w.started == 0, "nothing is scheduled before the service starts")
    s.startService()
    w.next_is_in_range()
    for i in range(runs):
        if ctx.flag("stop before run %d" % i):
            return stop(ctx, w, s)
        w.fire()
        ctx.check(w.started == i + 1, "the scheduled call is a run of the operation")
        if w.running:
            ctx.cover("long run")
            ctx.check(w.reactor.active() == [], "no run is scheduled during a run")
            if ctx.flag("stop during run %d" % i):
                return stop(ctx, w, s)
            w.end()
        w.next_is_in_range()
        ctx.cover("next run")
    if runs and ctx.flag("restart"):
        # the next process makes up for the time passed
        end = w.reactor.now
        stop(ctx, w, s)
        w.advance("restart")
        s2 = w.service()
        s2.startService()
        (c,) = w.reactor.active()
        draw = w.random.bounds[-1][2]
        ctx.check(
            c.delay == w.clamp(w.clamp(draw) - (w.reactor.now - end)),
            "the first delay makes up for the time since the last run",
        )
        ctx.cover("restart")


def restart(ctx):
    """The first delay of a process, from any recorded last run."""
    w = World(ctx)
    last = ctx.int("last run", NOW_MIN - 400 * DAY, NOW_MAX)
    ctx.assume(last <= w.reactor.now)
    recorded = ctx.flag("recorded")
    if recorded:
        L.write_time_to_path(w.path, timesym.time_of(ctx, last))
    s = w.service()
    s.startService()
    active = w.reactor.active()
    ctx.check(len(active) == 1, "the first run is scheduled")
    lo, hi, draw = w.random.bounds[-1]
    ctx.check(And(lo == w.mean - w.range // 2, hi == w.mean + w.range // 2), "the draw covers the whole configured range")
    if recorded:
        ctx.check(active[0].delay == w.clamp(draw - (w.reactor.now - last)), "the first delay makes up for the time since the last run")
        ctx.cover("overdue" if w.reactor.now - last > draw else "not yet due")
    else:
        ctx.check(active[0].delay == draw, "without a record the first delay is drawn from the full range")
        ctx.cover("no record")


def disk_full(ctx):
    """The record cannot be written: maintenance goes on all the same."""
    w = World(ctx)
    s = w.service()
    s.startService()
    w.path.full = True
    for i in range(2):
        w.fire()
        if w.running:
            w.end()
        w.next_is_in_range()
    ctx.cover("survived")


def again(ctx):
    """Stopped between runs, a service can be started again."""
    w = World(ctx)
    s = w.service()
    s.startService()
    for i in range(2):
        stop(ctx, w, s)
        w.advance("stopped%d" % i)
        s.startService()
        active = w.reactor.active()
        ctx.check(len(active) == 1, "one run is scheduled")
        w.fire()
        if w.running:
            w.end()
        w.next_is_in_range()
        ctx.cover("started again")


HARNESSES = [
    H(history, "history", {"runs": 2}, bounds="2 runs, each done at once, failing at once, raising, or ending later; stop before, during or after each; restart", covers=["next run", "long run", "restart", "stopped during a run", "stopped between runs"]),
    H(history, "any range", {"runs": 1, "free": True}, bounds="1 run, ranges wider than the interval itself allows", covers=["next run"]),
    H(restart, "restart", bounds="every last-run time, mean, range and draw", covers=["overdue", "not yet due", "no record"]),
    H(disk_full, "disk full", bounds="2 runs", covers=["survived"]),
    H(again, "again", bounds="2 stops and starts", covers=["started again"]),
    H(history, "history-4", {"runs": 4}, bounds="4 runs", covers=["next run", "long run", "restart", "stopped during a run"], tiers=("thorough",), budget_s=800),
]
